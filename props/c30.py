from hmsym.explore import Stop
from hmsym.runner import Cfg, Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from hmsym import fam, solve as S, expr as X
from hmsym.expr import E
from hmsym.machine import USER_BASE
from . import c23

PROP = Prop("C30", bounds=["slot choice: every class of the extended and the plain size classes; untouched slabs, slabs filled up to the last 1, 2, 7 free slots and slabs with free slots in the first, middle and last positions; every free slot is a target, and again given the previous choice",
                           "guards: every number of pages of sizes up to 4 MiB (divisor 2) and of larger sizes with larger divisors; smallest, largest and a middle guard of sizes up to 4 GiB; malloc, aligned allocation, growth by realloc; every pair of two consecutive guards",
                           "random arrays: every position of slab, region and free-slab quarantines with up to 64 (quick) or 256 (thorough) entries, and again given the previous position",
                           "class regions: every page-aligned offset in a build with 1 MiB regions; with 32 GiB regions the smallest, largest and each power of two; guards of the allocator state smallest, middle, largest"],
            assumptions=["an outcome counts as possible when the solver finds random bytes which lead to it; draws accepted at once"])
SEEN = {}
WANT = {}
NOZ = dict(ZERO_ON_FREE=False, WRITE_AFTER_FREE_CHECK=False)


def saw(c, key, v):
    c.M.nobl += 1
    SEEN.setdefault(key, set()).add(v)


def post(r, hm):
    """outcomes for which no random bytes exist"""
    if not r.exhausted or r.inconclusive or r.errors:
        return
    for key, w in sorted(WANT.items(), key=str):
        got = SEEN.get(key, set())
        if isinstance(w, int):
            if len(got) < w:
                yield "%s: only %d of %d outcomes are possible for any random bytes (%s ...)" % (key if isinstance(key, str) else key[0], len(got), w, ", ".join(hex(x) for x in sorted(got)[:6]))
        elif w - got:
            m = sorted(w - got)
            yield "%s: %d of %d outcomes are impossible for all random bytes: %s" % (key if isinstance(key, str) else key[0], len(m), len(w), ", ".join(hex(x) for x in m[:6]))


FIRST = {}


def drawn(c, v, used=True):
    """an arbitrary random word took part in the choice (otherwise the layout of the generator is not the known one)"""
    M = c.M
    if not used or isinstance(v, E) and X.varsof(v):
        return
    if len(M.links) > c.links0 or any(isinstance(x, E) and X.varsof(x) for x in M.pc[c.pc0:]):
        return
    raise Stop


def start(c, *cls, region=False):
    fresh(c, *cls, region=region)
    c.links0, c.pc0 = len(c.M.links), len(c.M.pc)


def goes_on(c, p, n=3):
    """one path for each of the first n outcomes is followed"""
    t = tuple(c.M.trace)
    if p not in FIRST and len(FIRST) < n:
        FIRST[p] = t
    return FIRST.get(p) == t


def conc(c, p):
    return c.M.choose(p) if isinstance(p, E) else p


def sat(c, cond):
    return S.check(list(c.M.pc) + [cond], 10)[0] == S.SAT


def witness(c, e, t):
    """random word for which e has the value t: by bisection when e grows with its only word (checked), otherwise from the solver"""
    vs = list(X.varsof(e))
    pc = [x for x in c.M.pc if isinstance(x, E)]
    if len(vs) == 1:
        v = vs[0]
        lo, hi = 0, X.MASK[v.w]
        while lo < hi:
            m = (lo + hi) // 2
            if X.ev(e, {v: m}) < t:
                lo = m + 1
            else:
                hi = m
        for w in (lo, lo + 1, lo + 2):
            if w <= X.MASK[v.w] and X.ev(e, {v: w}) == t and all(X.ev(x, {v: w}) for x in pc if X.varsof(x) == X.varsof(e)):
                c.M.nobl += 1
                return S.SAT
    rel = [x for x in pc if X.varsof(x) & X.varsof(e)]
    return S.check(rel + [X.eq(64, e, t)], 10)[0]


# ------------------------------------------------------------------ slots
def burn(c):
    """draws up to the end of the generator's buffer"""
    P = c.params
    hm = c.hm
    cls = P["cls"]
    c.symbolic_random(False)
    b = class_rng(c, cls)
    if b is None or hm.lay.get("rng_index") is None:
        return None
    for _ in range(400):
        i = hm.rd(b + hm.lay.rng_index, 4)
        if isinstance(i, int) and i >= 256 - P["burn"]:
            break
        p = c.call("h_malloc", class_range(hm, cls)[1])
        c.call("h_free", p)
    return None


def slots_setup(c):
    P = c.params
    hm = c.hm
    cls = P["cls"]
    c.symbolic_random(False)
    if P.get("burn"):
        burn(c)
    n = hm.slots[cls]
    req = class_range(hm, cls)[1]
    free = P.get("free")
    if free is None:
        return None
    ps = []
    for _ in range(3 * n):
        ps.append(c.call("h_malloc", req))
    # the slab all of whose slots are in use, and nothing else has free slots
    ps.sort()
    sz = hm.slab_size(cls)
    by = {}
    start = ps[0] & ~4095
    for p in ps:
        by.setdefault(p & ~(PAGE - 1) if sz == PAGE else None, []).append(p)
    full = [sorted(v) for k, v in by.items() if k is not None and len(v) == n]
    if not full:
        raise Stop
    full = full[0]
    idx = sorted({i for i in free(n) if 0 <= i < n})
    out = [full[i] for i in idx]
    # use up what is free elsewhere
    live = set(ps)
    for p in out:
        c.call("h_free", p)
    return out


def slot(c):
    """every free slot of the slab in use, and every pair of consecutive choices"""
    P = c.params
    hm, M = c.hm, c.M
    cls = P["cls"]
    n = hm.slots[cls]
    req = class_range(hm, cls)[1]
    st = P.get("st")
    start(c, cls)
    p = c.call("h_malloc", req)
    drawn(c, p, P.get("burn") or P.get("left") or P.get("free"))
    p = conc(c, p)
    if isinstance(st, list):
        key = "slot randomization of class %d with %d free slots" % (cls, len(st))
        WANT[key] = set(st)
        want2 = len(st) - 1
    else:
        left = P.get("left", n)
        key = "slot randomization of class %d with %d slots left" % (cls, left)
        WANT[key] = left
        want2 = left - 1
    c.info["class"] = cls
    if isinstance(st, list) and p not in st:
        raise Stop              # another slab is in use
    saw(c, key, p)
    c.reach("first")
    if want2 < 1:
        raise Stop
    if not goes_on(c, p):
        raise Stop
    c.links0, c.pc0 = len(M.links), len(M.pc)
    q = c.call("h_malloc", req)
    drawn(c, q)
    q = conc(c, q)
    if q == p:
        c.fail("a live slot was chosen again")
    k2 = "slot randomization of class %d after the choice of %#x" % (cls, p)
    WANT[k2] = want2
    saw(c, k2, q)
    c.reach("second")


def left_setup(c):
    """one slab with only a few free slots left"""
    P = c.params
    hm = c.hm
    cls = P["cls"]
    c.symbolic_random(False)
    n = hm.slots[cls]
    req = class_range(hm, cls)[1]
    for _ in range(n - P["left"]):
        c.call("h_malloc", req)
    return None


# ------------------------------------------------------------------ guards
def guard_pages(c, p, size):
    h = Heap(c)
    b = Block(p=p, req=size, usable=size, map=None)
    r = mapping_range(c.M, p)
    if r is None:
        c.fail("large block outside any mapping")
    lo, hi = r[0], r[1]
    s = c.M.seg_at(p - 1)
    if s is None or s[2] & 3:
        c.fail("no guard before a large block")
    return (p - lo) // PAGE, (hi - p - size) // PAGE


def guards(c):
    """every guard size of a large allocation"""
    P = c.params
    hm, M = c.hm, c.M
    how, size = P["how"], P["size"]
    mx = max_guard_pages(hm, size)
    p0 = None
    if how == "grow":
        c.symbolic_random(False)
        p0 = c.call("h_malloc", P["from"])
    start(c, region=True)

    def one(tag):
        if how == "malloc":
            p = c.call("h_malloc", size)
        elif how == "calloc":
            p = c.call("h_calloc", 1, size)
        elif how == "aligned":
            p = c.call("h_aligned_alloc", P["align"], size)
        else:
            p = c.call("h_realloc", p0, size)
        drawn(c, p, mx > 1 and p0 is not None)
        p = conc(c, p)
        if not p:
            c.fail("allocation failed although memory is available")
        return guard_pages(c, p, size)
    g = one("first")
    for side in (0, 1):
        key = "guard pages %s %s of %#x bytes" % (("before", "after")[side], how, size)
        WANT[key] = set(range(1, mx + 1))
        saw(c, key, g[side])
    c.info["guard"] = g
    c.reach("end")
    if P.get("pair"):
        c.links0, c.pc0 = len(M.links), len(M.pc)
        g2 = one("second")
        key = "guard pages of %s of %#x bytes after a guard of %d pages" % (how, size, g[0])
        WANT[key] = set(range(1, mx + 1))
        saw(c, key, g2[0])
        c.reach("pair")


def bigguards(c):
    """smallest, largest and some middle guard of a very large allocation"""
    P = c.params
    hm, M = c.hm, c.M
    size, how = P["size"], P["how"]
    mx = max_guard_pages(hm, size)
    which = c.pick("which", 3)
    start(c, region=True)

    def pick(M, n):
        lo, hi = X.lo_(n), X.hi_(n)
        conds = lambda x: sat(c, x)
        if which == 0:      # largest
            a, b = lo, hi
            while a < b:
                m = (a + b + 1) // 2
                if conds(X.uge(64, n, m)):
                    a = m
                else:
                    b = m - 1
            v = a
        elif which == 1:
            a, b = lo, hi
            while a < b:
                m = (a + b) // 2
                if conds(X.ule(64, n, m)):
                    b = m
                else:
                    a = m + 1
            v = a
        else:
            t = size + 2 * PAGE * (mx // 3 + 1)
            v = t if conds(X.eq(64, n, t)) else M.val(n)
        M.assume(X.eq(64, n, v))
        return v
    M.ghost["mmap_len"] = pick
    p = conc(c, c.call("h_malloc", size) if how == "malloc" else c.call("h_aligned_alloc", P["align"], size))
    if not p:
        raise Stop
    M.ghost["mmap_len"] = None
    g = guard_pages(c, p, size)
    c.info["guard"] = g
    key = "smallest and largest guard of %#x bytes (%s)" % (size, how)
    WANT[key] = {1, mx}
    saw(c, key, g[0])
    key += ", after the block"
    WANT[key] = {1, mx}
    saw(c, key, g[1])
    if 1 < g[0] < mx:
        c.reach("between")
    c.reach("end")


# ------------------------------------------------------------------ random arrays
def quar_setup(c):
    """random array full of freed blocks, no free slot anywhere"""
    P = c.params
    hm = c.hm
    cls = P["cls"]
    c.symbolic_random(False)
    R = quar_lengths(hm, cls)[0]
    n = hm.slots[cls]
    req = class_range(hm, cls)[1]
    N = -(-(10 * R + 8) // n) * n
    ps = [c.call("h_malloc", req) for _ in range(N)]
    for p in ps[:10 * R]:
        c.call("h_free", p)
    known = set(ps)
    back = set()
    new = None
    while True:
        q = c.call("h_malloc", req)
        if q not in known:
            new = q
            break
        back.add(q)
    for _ in range(n - 1):
        q = c.call("h_malloc", req)
        if q in known:
            back.add(q)
    held = set(ps[:10 * R]) - back
    return dict(R=R, held=sorted(held), live=[p for p in ps[10 * R:]] + sorted(back))


def quar(c):
    """which held block does the next free displace"""
    P = c.params
    hm, M = c.hm, c.M
    st = P["st"]
    cls = P["cls"]
    req = class_range(hm, cls)[1]
    short = {0} if len(st["held"]) < st["R"] else set()       # a position is still empty
    if not st["held"] or len(st["live"]) < 2:
        raise Stop
    start(c, cls)
    c.call("h_free", st["live"][0])
    drawn(c, 0)
    q = conc(c, c.call("h_malloc", req))
    key = "position in the slab quarantine of class %d" % cls
    if short and q not in st["held"]:
        q = 0
    WANT[key] = set(st["held"]) | short
    saw(c, key, q)
    c.info["displaced"] = q
    c.reach("first")
    if not q or not goes_on(c, q):
        raise Stop
    c.call("h_free", st["live"][1])
    q2 = conc(c, c.call("h_malloc", req))
    key = "position in the slab quarantine of class %d after the one of %#x" % (cls, q)
    WANT[key] = set(st["held"]) - {q} | {st["live"][0]} | short
    saw(c, key, 0 if short and q2 not in WANT[key] else q2)
    c.reach("second")


def huge(c):
    """a random array of more positions than 16 bits can count: distinct random words need not displace what was freed just before"""
    P = c.params
    hm, M = c.hm, c.M
    req = class_range(hm, P["cls"])[1]
    k = c.pick("stream", 4)
    M.ghost["ksmode"] = lambda M, n, sz: [sum((((4 * i + j + 1) * (509 + 256 * k)) & 0xffff) << (16 * j) for j in range(4)) for i in range((sz + 7) // 8)]
    ps = [c.call("h_malloc", req) for _ in range(6)]
    for p in ps[:4]:
        c.call("h_free", p)
    key = "fate of a block in a slab quarantine of %d random positions when three more are freed" % quar_lengths(hm, P["cls"])[0]
    WANT[key] = {0}
    back = [c.call("h_malloc", req) for _ in range(P["n"])]
    saw(c, key, sum(p in back for p in ps[:4]))
    c.reach("end")


def region_setup(c):
    P = c.params
    hm, M = c.hm, c.M
    c.symbolic_random(False)
    R = hm.rqr
    ps = []
    size = P["size"]
    for i in range(10 * R + 4):
        ps.append(c.call("h_malloc", size))
    for p in ps[:10 * R]:
        c.call("h_free", p)
    held = [p for p in ps[:10 * R] if M.seg_at(p) is not None]
    return dict(R=R, held=held, live=ps[10 * R:])


def region(c):
    P = c.params
    hm, M = c.hm, c.M
    st = P["st"]
    short = {0} if len(st["held"]) < st["R"] else set()
    if not st["held"]:
        raise Stop
    start(c, region=True)
    pool = st["held"] + [st["live"][0]]

    def gone(pool):
        return [p for p in pool if M.seg_at(p) is None]
    c.call("h_free", st["live"][0])
    drawn(c, 0)
    g = gone(pool)
    key = "position in the region quarantine"
    WANT[key] = set(st["held"]) | short
    for p in g or sorted(short):
        saw(c, key, p)
    c.reach("first")
    if len(g) != 1:
        raise Stop
    c.info["displaced"] = g[0]
    if not goes_on(c, g[0]):
        raise Stop
    c.call("h_free", st["live"][1])
    key = "position in the region quarantine after the one of %#x" % g[0]
    rest = [p for p in pool if p != g[0]]
    WANT[key] = set(rest) | short
    for p in gone(rest) or sorted(short):
        saw(c, key, p)
    c.reach("second")


def fsq_setup(c):
    P = c.params
    hm = c.hm
    cls = P["cls"]
    c.symbolic_random(False)
    R = hm.fsq
    req = class_range(hm, cls)[1]
    N = 10 * R + 6
    ps = [c.call("h_malloc", req) for _ in range(N)]
    for p in ps[:10 * R]:
        c.call("h_free", p)
    known = set(ps)
    back = []
    while True:
        q = c.call("h_malloc", req)
        if q not in known:
            break
        back.append(q)
    return dict(R=R, held=sorted(set(ps[:10 * R]) - set(back)), live=ps[10 * R:] + back)


def fsq(c):
    """which free slab becomes usable when a further one is released"""
    P = c.params
    hm, M = c.hm, c.M
    st = P["st"]
    cls = P["cls"]
    short = {0} if len(st["held"]) < st["R"] else set()
    if not st["held"]:
        raise Stop
    req = class_range(hm, cls)[1]
    start(c, cls)
    live = list(st["live"])
    # empty slabs kept for reuse come first
    k = P["keep"]
    for i in range(k + 1):
        c.call("h_free", live[i])
    mine = set(live[:k + 1])
    got = None
    drawn(c, 0)
    for _ in range(k + 1):
        q = conc(c, c.call("h_malloc", req))
        if q not in mine:
            got = q
            break
    key = "position in the free slab quarantine of class %d" % cls
    WANT[key] = set(st["held"]) | short
    if got in st["held"] or short:
        saw(c, key, got if got in st["held"] else 0)
        c.info["displaced"] = got
        c.reach("first")


# ------------------------------------------------------------------ class regions
def gaps(c):
    """start of a class region, from the first slab and the first block of the class after initialization with arbitrary random bytes"""
    P = c.params
    hm, M = c.hm, c.M
    cls = P["cls"]
    c.symbolic_random(True)
    req = class_range(hm, cls)[1]
    if hm.crs // PAGE <= 300:
        t = {PAGE * i for i in range(1, hm.crs // PAGE)}
    else:
        t = {PAGE, 2 * PAGE, 3 * PAGE, hm.crs - PAGE, hm.crs - 2 * PAGE, hm.crs // 2 + PAGE, hm.crs // 3 & ~(PAGE - 1)} | {PAGE << i for i in range((hm.crs // PAGE - 1).bit_length())}
    t = sorted(x for x in t if x <= hm.crs - PAGE)
    got = []

    def one(M, n):
        # the guards of the allocator state are not of interest here
        v = M.pick(n)
        M.assume(X.eq(64, n, v))
        return v
    M.ghost["mmap_len"] = one

    def fault(M, name, args):
        if name != "mprotect" or got or M.work:
            return 0
        a = args[0]
        if not isinstance(a, E):
            return 0
        hm.find_layout()
        base = hm.slab_start + cls * hm.real
        v = M.val(a)
        if not base <= v < base + hm.real:
            return 0
        miss = [x for x in t if witness(c, a, base + x) == S.UNSAT]

        v = M.pick(a)
        M.assume(X.eq(64, a, v))
        got.append((v, miss))
        return 0
    M.ghost["fault"] = fault
    p = conc(c, c.call("h_malloc", req))
    M.ghost["fault"] = None
    if not got:
        raise Stop
    v, miss = got[0]
    if p & ~(PAGE - 1) == v:
        c.reach("end")
    if miss and p & ~(PAGE - 1) == v:
        c.info["class"] = cls
        c.fail("%d of %d page-aligned offsets of the region of class %d are impossible for all random bytes: %s" % (len(miss), len(t), cls, ", ".join(hex(x) for x in miss[:6])))
    raise Stop


def stateguard(g):
    def post(r, hm):
        if not r.errors and r.reached.get("no-%s-guard" % g):
            yield "the %s guard of the allocator state is impossible for all random bytes" % dict(min="smallest", max="largest", mid="middle")[g]
    return post


def tasks(tier, seed):
    T = tier == "thorough"
    B = 300 if T else 40
    r = []
    NQZ = Cfg("default", SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, name="default,no-slab-quarantine,no-zero", **NOZ)
    NEZ = Cfg("default", EXTENDED_SIZE_CLASSES=False, name="no-ext,no-zero", **NOZ)
    e = dict(enum=4096)
    for k in [0, 1] + list(range(3, 49)) if T else (0, 1, 3, 4, 7, 12, 20, 21, 27, 33, 34, 36):
        r.append(Task("slot/%d" % k, D, slot, dict(cls=k, **e), setup=slots_setup, budget=B, reach=["first"], post=post))
    for k in [0, 1] + list(range(3, 37)) if T else (5, 22, 30, 36):
        r.append(Task("slot,no-ext/%d" % k, NEZ, slot, dict(cls=k, **e), setup=slots_setup, budget=B, reach=["first"], post=post))
    for k, left in ((1, 2), (1, 70), (3, 7), (4, 3), (9, 2), (20, 30), (22, 5), (29, 2)):
        r.append(Task("slot,left-%d/%d" % (left, k), D, slot, dict(cls=k, left=left, **e), setup=left_setup, budget=B, reach=["first"], post=post))
    pats = [("ends", lambda n: {0, n - 1}), ("last-word", lambda n: range(n - 3, n)), ("words", lambda n: {0, 63, 64, 65, 127, 128, n - 1}), ("odd", lambda n: range(1, n, 2)), ("one", lambda n: {n // 2})]
    for k in (1, 2, 3, 4) + ((5, 6, 7, 8) if T else ()):
        for nm, f in pats:
            r.append(Task("slot,holes-%s/%d" % (nm, k), NQZ, slot, dict(cls=k, free=f, **e), setup=slots_setup, budget=B, reach=["first"], post=post))
    for k, b in ((1, 2), (9, 3), (9, 1), (20, 0)):
        r.append(Task("slot,refill-%d/%d" % (b, k), NQZ, slot, dict(cls=k, burn=b + 1, **e), setup=slots_setup, budget=B, reach=["first"], post=post))
    # guards
    for how, size, kw in (("malloc", 163840, {}), ("malloc", 1 << 20, {}), ("malloc", 4 << 20, {}), ("calloc", 262144, {}), ("aligned", 262144, dict(align=65536)), ("aligned", 1 << 20, dict(align=8192)),
                          ("grow", 393216, {"from": 163840}), ("grow", 48 << 20, {"from": 40 << 20})):
        cfg = D if size <= 4 << 20 else Cfg("default", GUARD_SIZE_DIVISOR=100, name="default,guard-divisor-100")
        r.append(Task("guard/%s/%#x" % (how, size), cfg, guards, dict(how=how, size=size, **kw, **e), budget=B, reach=["end"], post=post))
    for dv, size in ((1, 163840), (3, 1 << 20), (7, 4 << 20), (1000, 256 << 20), (100000, 1 << 20)) + (((2, 16 << 20), (1000, 4 << 30)) if T else ()):
        r.append(Task("guard,divisor-%d/%#x" % (dv, size), Cfg("default", GUARD_SIZE_DIVISOR=dv, name="default,guard-divisor-%d" % dv), guards, dict(how="malloc", size=size, **e), budget=B, reach=["end"], post=post))
    G = Cfg("default", GUARD_SIZE_DIVISOR=8, name="default,guard-divisor-8")
    for how, kw in (("malloc", {}), ("aligned", dict(align=16384))):
        r.append(Task("guard,pairs/%s" % how, G, guards, dict(how=how, size=163840 * 2, pair=1, **kw, **e), budget=B, reach=["end", "pair"], post=post))
    for how, size in (("malloc", 64 << 20), ("malloc", 1 << 29), ("malloc", 1 << 32), ("aligned", 1 << 29), ("malloc", 5 << 30)):
        r.append(Task("guard,huge/%s/%#x" % (how, size), D, bigguards, dict(how=how, size=size, align=1 << 20), budget=B, reach=["end", "between"] if how == "malloc" else ["end"], post=post))
    # class regions
    SM = Cfg("default", CLASS_REGION_SIZE=1 << 20, SELF_INIT=False, SLOT_RANDOMIZE=False, name="default,class-region-1M,no-self-init,first-slot", **NOZ)
    BG = Cfg("default", SELF_INIT=False, SLOT_RANDOMIZE=False, name="default,no-self-init,first-slot", **NOZ)
    for k in (1, 20, 48) if not T else (0, 1, 2, 9, 20, 30, 40, 48):
        r.append(Task("region-offset,1M/%d" % k, SM, gaps, dict(cls=k), boot=False, budget=B, reach=["end"], max_paths=2))
        r.append(Task("region-offset/%d" % k, BG, gaps, dict(cls=k), boot=False, budget=B, reach=["end"], max_paths=2))
    for g in ("min", "max", "mid"):
        r.append(Task("placed/%s" % g, D, c23.placed, dict(guard=g, range=g == "mid"), boot=False, budget=B, reach=["end"], max_paths=4, post=stateguard(g)))
    # random arrays
    for k, q in ((12, 1), (20, 1), (30, 4), (9, 1)) if not T else ((9, 1), (20, 1), (30, 4), (1, 1), (5, 1), (33, 16), (9, 3), (20, 7)):
        cf = Cfg("default", EXTENDED_SIZE_CLASSES=False, SLAB_QUARANTINE_RANDOM_LENGTH=q, SLAB_QUARANTINE_QUEUE_LENGTH=0, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=0, SLOT_RANDOMIZE=False, name="no-ext,slab-quarantine-%d-0,first-slot" % q, **NOZ)
        r.append(Task("slab-quarantine-%d/%d" % (q, k), cf, quar, dict(cls=k, **e), setup=quar_setup, budget=B, reach=["first"], post=post))
    for q, k in ((8, 1), (16, 1), (32, 3)):
        cf = Cfg("default", EXTENDED_SIZE_CLASSES=True, SLAB_QUARANTINE_RANDOM_LENGTH=q, SLAB_QUARANTINE_QUEUE_LENGTH=0, SLOT_RANDOMIZE=False, name="slab-quarantine-%d-0,first-slot" % q, **NOZ)
        r.append(Task("slab-quarantine-huge-%d/%d" % (q, k), cf, huge, dict(cls=k, n=4), budget=B, reach=["end"], post=post))
    for n in (2, 5, 32) + ((256,) if T else ()):
        cf = Cfg("default", REGION_QUARANTINE_RANDOM_LENGTH=n, REGION_QUARANTINE_QUEUE_LENGTH=0, GUARD_SIZE_DIVISOR=100000, name="default,region-quarantine-%d-0" % n)
        r.append(Task("region-quarantine-%d" % n, cf, region, dict(size=163840, **e), setup=region_setup, budget=B, reach=["first", "second"], post=post))
    for n, k in ((32, 48), (5, 48), (7, 45)):
        cf = Cfg("default", FREE_SLABS_QUARANTINE_RANDOM_LENGTH=n, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, name="default,no-slab-quarantine,free-slab-quarantine-%d" % n, **NOZ)
        r.append(Task("free-slab-quarantine-%d/%d" % (n, k), cf, fsq, dict(cls=k, keep=1, **e), setup=fsq_setup, budget=B, reach=["first"], post=post))
    return r
