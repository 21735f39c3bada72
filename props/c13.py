from hmsym.explore import Stop
from hmsym.runner import Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from props.c23 import draws
from props import c14
from hmsym import fam, expr as X
from hmsym.expr import E
from hmsym.machine import Unsupported, ENOMEM

PROP = Prop("C13", bounds=["histories of up to 6 (quick) or 9 (thorough) allocations, frees and resizes of large blocks (ordinary, over-aligned, below and above the threshold, above the page moving threshold), arbitrary random array positions",
                           "region quarantine lengths 0 to 2 (quick) or 3 (thorough) for array and queue", "every range ever reserved for a large block is inspected after every call; mappings are adjacent to each other",
                           "moves by page table with guards of 1 to 5 pages (every draw) and with every draw at its smallest, largest and middle value"],
            assumptions=["histories: the kernel grants every request; one refused mmap or munmap during the free of a block of two sizes is covered apart (further refusals: C18)", "the reference keeps every state the documented quarantine can be in for the frees made so far"])


class Ref:
    def __init__(self, lr, lq):
        self.lr, self.lq = lr, lq
        self.states = {((None,) * lr, (), frozenset())}

    def enq(self, q, rel, p):
        if not self.lq:
            return q, rel | {p}
        if len(q) < self.lq:
            return q + (p,), rel
        return q[1:] + (p,), rel | {q[0]}

    def free(self, p, skip=False):
        n = set()
        for ra, q, rel in self.states:
            if skip:
                n.add((ra, q, rel | {p}))
            elif not self.lr:
                n.add((ra,) + self.enq(q, rel, p))
            else:
                for i in range(self.lr):
                    old = ra[i]
                    ra2 = tuple(sorted(ra[:i] + (p,) + ra[i + 1:], key=lambda x: (x is None, x or 0)))
                    n.add((ra2, q, rel) if old is None else (ra2,) + self.enq(q, rel, old))
        self.states = n

    def observed(self, rel):
        self.states = {s for s in self.states if s[2] == rel}
        return bool(self.states)


class Shrunk(Exception):
    pass


def reserved(M, lo, hi):
    """'held': fully mapped without access; 'gone': nothing mapped; else a description"""
    a = lo
    gone = held = 0
    for s in M.segs:
        if s[1] <= lo or s[0] >= hi:
            continue
        held += min(s[1], hi) - max(s[0], lo)
        if s[2] & 3:
            return "accessible"
    if held == hi - lo:
        return "held"
    if held == 0:
        return "gone"
    return "partly unmapped"


def hist(c):
    P = c.params
    hm, M = c.hm, c.M
    if P.get("word"):
        # every draw (guard sizes, array positions) at one extreme
        draws(c, P["word"])
        hm.find_layout()
    elif P.get("sym", 1):
        fresh(c, region=True)
    M.ghost["mmap_gap"] = P.get("gap", 0)
    h = Heap(c)
    ref = Ref(hm.rqr, hm.rqq)
    ranges = {}      # id -> (lo, hi, usable lo, usable size)
    seen = set()
    small = h.malloc(100)
    h.mark(small)
    log = c.info["ops"] = []
    st = mapping_range(M, hm.state) if hm.state else None

    def reg(b):
        if M.plog or isinstance(b.p, E):
            raise Unsupported("mapping of symbolic length")
        b.lo, b.hi, b.map = mapping_range(M, b.p)
        h.mark(b)

    def give(b, lo, hi, size, skip=None):
        """range [lo,hi) was freed"""
        i = len(ranges)
        ranges[i] = (lo, hi, b)
        ref.free(i, size >= hm.rqskip if skip is None else skip)

    def look():
        rel = set()
        for i, (lo, hi, b) in ranges.items():
            if i in seen:
                rel.add(i)
                continue      # unmapped: may belong to anybody now
            s = reserved(M, lo, hi)
            if s == "gone":
                rel.add(i)
            elif s != "held":
                for x in range(lo, hi, PAGE):
                    if M.prot(x >> 12) & 3:
                        c.prot(x)
                        break
                c.fail("freed large memory is %s" % s)
            else:
                h.check_zero0(lo, hi)
        if not ref.observed(frozenset(rel)):
            c.fail("freed large memory: %s unmapped, not what the region quarantine allows after these frees" % (sorted(rel) or "nothing"))
        seen.update(rel)
        for b in h.blocks:
            h.verify(b)
            if b.cls is None:
                r = mapping_range(M, b.p)
                if r is None or M.prot(b.p >> 12) & 3 != 3 or M.prot((b.p + b.usable - 1) >> 12) & 3 != 3 or r[0] > b.p - PAGE or r[1] < b.p + up(b.usable) + PAGE:
                    c.fail("a live large block lost memory")
        if st is not None and mapping_range(M, hm.state) != st:
            c.fail("allocator state was unmapped")
        c.ok_kernel()

    def zero0(lo, hi):
        v = None
        for pg, w in M.pages.items():
            if lo >> 12 <= pg < hi >> 12:
                for o, x in w.items():
                    c.prove(X.eq(64, x, 0), "contents of a freed large block were kept")
    h.check_zero0 = zero0
    menu = P["menu"]
    nf = 0
    for step in range(P["steps"]):
        big = [b for b in h.blocks if b.cls is None]
        ops = [o for o in menu if not (o[0] in ("f0", "r") and not big or o[0] == "f1" and len(big) < 2 or o[0] in ("m", "a", "x") and len(big) >= P.get("maxlive", 4))]
        o = ops[c.pick("op", len(ops))]
        log.append(str(o))
        if o[0] == "m":
            b = h.malloc(fam.sym_req(c, o[1]), None)
            reg(b)
        elif o[0] == "x":
            b = h.malloc(o[1])
            reg(b)
        elif o[0] == "a":
            p = c.call("h_aligned_alloc", o[1], o[2])
            b = h.got(p, o[2], None, align=o[1])
            reg(b)
        elif o[0] in ("f0", "f1"):
            b = big[0] if o[0] == "f0" else big[-1]
            lo, hi = mapping_of(M, b)
            h.free(b)
            give(b, lo, hi, b.usable)
        elif o[0] == "r":
            b = big[-1]
            req = o[1][1] if isinstance(o[1], tuple) and o[1][0] == "x" else fam.sym_req(c, o[1])
            cls = doc_class(hm, req) if isinstance(req, int) else fam.lcls(o[1])
            lo, hi = mapping_of(M, b)
            p, u = b.p, b.usable
            g = p - lo
            nb = h.realloc(b, req, cls)
            if nb is b:
                if b.usable < u:       # shrunk in place: guard after the new end, the rest is given back
                    give(b, b.p + up(b.usable) + g, p + up(u) + g, u - b.usable)
                    b.lo, b.hi = lo, b.p + up(b.usable) + g
            else:
                if nb.cls is None:
                    nb.lo, nb.hi, nb.map = mapping_range(M, nb.p)
                give(b, lo, hi, u)
        look()
    for b in [b for b in h.blocks if b.cls is None]:
        lo, hi = mapping_of(M, b)
        h.free(b)
        give(b, lo, hi, b.usable)
        look()
    c.reach("end")


def refused(c):
    """the kernel refuses one of the calls made while a large block is freed: the contents are gone all the same, and the range is given back once"""
    P = c.params
    hm, M = c.hm, c.M
    if P.get("sym", 1):
        fresh(c, region=True)
    req = P["req"]
    other = c.call("h_malloc", 200)
    p = c.call("h_malloc", req)
    lo, hi, _ = mapping_range(M, p)
    us = c.call("h_malloc_usable_size", p)
    spots = [0, 8, 4096, up(req) // 2, up(req) - 8]
    o = spots[c.pick("o", len(spots))]
    v = c.var("v", 64)
    c.assume(X.ne(64, v, 0))
    c.wr(p + o, v, 8)
    which = ["mmap_fixed", "munmap"][c.pick("which", 2)]
    n = [0]
    hit = []

    def f(M, name, a):
        if name != which:
            return 0
        n[0] += 1
        if n[0] == k + 1:
            hit.append((a[0], a[1]))
            return ENOMEM
        return 0
    k = c.pick("k", 2)
    how = P["how"][c.pick("how", len(P["how"]))]
    c.info.update(refused=which, call=k, how=how, offset=o, value=v)
    M.ghost["fault"] = f
    q = 0
    if how == "free":
        c.call("h_free", p)
    elif how == "sized":
        c.call("h_free_sized", p, req)
    else:
        q = c.call("h_realloc", p, how)
    M.ghost.pop("fault")
    if how not in ("free", "sized") and q in (0, p):
        raise Stop           # still live, at least in part
    if hit:
        c.reach("refused")
    pr = c.prot(p + o)
    if pr & 1:
        c.prove(X.eq(64, c.rd(p + o, 8), 0), "contents of a freed large block were kept")
        if not hit:
            c.fail("freed large memory is accessible")
    # push it out of the quarantine
    ne = len(M.events)
    for i in range(P["push"]):
        c.call("h_free", c.call("h_malloc", 300000))
        if M.prot(p >> 12) & 1:
            c.prove(X.eq(64, c.rd(p + o, 8), 0), "contents of a freed large block were kept")
    un = sum(1 for e in M.events if e[0] == "munmap" and e[3] == 0 and isinstance(e[1], int) and e[1] <= p < e[1] + e[2])
    if un > 1:
        c.fail("the range of a freed block was unmapped %d times" % un)
    c.call("h_malloc_usable_size", other)
    c.ok_kernel()
    c.reach("end")


def mapping_of(M, b):
    return b.lo, b.hi


def ranges(c):
    """blocks with guards of different sizes whose table entries collide: each release unmaps exactly its own range"""
    P = c.params
    hm, M = c.hm, c.M
    s = P["st"]["sets"][P["set"]]
    live = {}
    log = c.info["ops"] = []
    size = [large_usable(hm, 20480 + 16384 * i) for i in range(len(s))]

    def alloc(k):
        # the start of the block does not depend on the guard size drawn
        M.ghost["mmap_policy"] = lambda M, n: s[k] + PAGE - (n - up(size[k])) // 2
        p = c.call("h_malloc", size[k])
        M.ghost["mmap_policy"] = None
        if isinstance(p, E):
            p = M.choose(p)
        live[k] = (p,) + mapping_range(M, p)[:2]
        log.append("alloc %d (guard %d pages)" % (k, (p - live[k][1]) // PAGE))
    for k in range(len(s)):
        alloc(k)
    for step in range(P["steps"]):
        k = c.pick("which", len(s))
        if k in live:
            p, lo, hi = live.pop(k)
            how = c.pick("how", 2) if P.get("more") else 0
            log.append(("free %d", "move %d")[how] % k)
            if how:
                c.call("h_realloc", p, 100)
            else:
                c.call("h_free", p)
            if reserved(M, lo, hi) != "gone":
                c.fail("freed large memory is %s" % reserved(M, lo, hi))
        else:
            alloc(k)
        for p, lo, hi in live.values():
            r = mapping_range(M, p)
            if r is None or r[:2] != (lo, hi):
                c.fail("a live large block lost memory")
    c.ok_kernel()
    c.reach("end")


def tasks(tier, seed):
    T = tier == "thorough"
    B = 120 if T else 12
    r = []
    menu = [("m", ("L", 0)), ("m", ("L", 3)), ("f0",), ("f1",), ("r", ("L", 1)), ("r", ("L", 4)), ("r", 5), ("a", 16384, 20000)]
    for lr, lq in ((0, 0), (0, 1), (0, 2), (1, 0), (2, 0), (1, 1), (2, 2)) + (((3, 3), (3, 1), (0, 3)) if T else ()):
        cfg = Cfg("default", EXTENDED_SIZE_CLASSES=False, GUARD_SIZE_DIVISOR=1000, REGION_QUARANTINE_RANDOM_LENGTH=lr, REGION_QUARANTINE_QUEUE_LENGTH=lq, name="no-ext,guard-1-page,region-quarantine-%d-%d" % (lr, lq))
        r.append(Task("history/%s" % cfg.name, cfg, hist, dict(menu=menu, steps=7 if T else 5, enum=8), budget=B, reach=["end"]))
        # deep: allocate and free
        r.append(Task("cycle/%s" % cfg.name, cfg, hist, dict(menu=[("m", ("L", 0)), ("f0",)], steps=12 if T else 10, enum=8, maxlive=3), budget=B if lr + lq < 4 else 2 * B, reach=["end"]))
    for cfg in (NE, NEL):
        r.append(Task("guards/%s" % cfg.name, cfg, hist, dict(menu=menu, steps=3, enum=64), budget=B, reach=["end"]))
    TH = Cfg("default", EXTENDED_SIZE_CLASSES=False, GUARD_SIZE_DIVISOR=100000, REGION_QUARANTINE_RANDOM_LENGTH=1, REGION_QUARANTINE_QUEUE_LENGTH=1, REGION_QUARANTINE_SKIP_THRESHOLD=65536, name="no-ext,guard-1-page,threshold-64k")
    th = [("x", 40960), ("x", 65536), ("x", 65537), ("f0",), ("r", ("x", 57344)), ("r", ("x", 131072)), ("a", 16384, 65536), ("a", 65536, 40000)]
    r.append(Task("threshold", TH, hist, dict(menu=th, steps=5 if not T else 7, enum=8), budget=B, reach=["end"]))
    for lr, lq in ((0, 0), (0, 1), (1, 0), (1, 1)) + (((2, 2),) if T else ()):
        cfg = Cfg("default", EXTENDED_SIZE_CLASSES=False, GUARD_SIZE_DIVISOR=1000, REGION_QUARANTINE_RANDOM_LENGTH=lr, REGION_QUARANTINE_QUEUE_LENGTH=lq, REGION_QUARANTINE_SKIP_THRESHOLD=1 << 20, name="no-ext,guard-1-page,region-quarantine-%d-%d,threshold-1m" % (lr, lq))
        for req in (20000, 2 << 20):
            r.append(Task("refused/%s/%d" % (cfg.name, req), cfg, refused, dict(req=req, push=lr + lq + 1, how=["free", "sized", 100, 3 * req], enum=8), budget=B, reach=["end", "refused"]))
    HM = [("x", 40 << 20), ("x", 32 << 20), ("x", 300000), ("f0",), ("r", ("x", 48 << 20)), ("r", ("x", 32 << 20)), ("r", ("x", 28 << 20)), ("r", ("x", 80 << 20)), ("a", 1 << 20, 36 << 20), ("x", 28 << 20)]
    r.append(Task("moves", Cfg("default", GUARD_SIZE_DIVISOR=100000, REGION_QUARANTINE_RANDOM_LENGTH=1, REGION_QUARANTINE_QUEUE_LENGTH=1, name="guard-1-page,region-quarantine-1-1"), hist,
                  dict(menu=HM, steps=5 if T else 4, enum=8), budget=B * 2, reach=["end"]))
    for d, lr in ((4000, 0), (2500, 1)):
        cfg = Cfg("default", GUARD_SIZE_DIVISOR=d, REGION_QUARANTINE_RANDOM_LENGTH=0, REGION_QUARANTINE_QUEUE_LENGTH=lr, name="guard-divisor-%d,region-quarantine-0-%d" % (d, lr))
        r.append(Task("moves-guards/%d" % d, cfg, hist, dict(menu=[o for o in HM if o != ("x", 300000)], steps=4 if T else 2, enum=8), budget=B * 2, reach=["end"]))
    for nm, w in (("largest", X.MASK[64]), ("smallest", 1), ("middle", 0x7fffffffffffffff)):
        r.append(Task("moves-extremes/%s" % nm, D, hist, dict(menu=HM, steps=4 if T else 3, word=w, enum=8), boot=False, budget=B, reach=["end"]))
    for j in range(5):
        cfg = Cfg("default", EXTENDED_SIZE_CLASSES=False, GUARD_SIZE_DIVISOR=1, REGION_QUARANTINE_RANDOM_LENGTH=0, REGION_QUARANTINE_QUEUE_LENGTH=0, name="no-ext,guard-divisor-1,no-region-quarantine")
        r.append(Task("ranges/%d" % j, cfg, ranges, dict(set=j, steps=5 if T else 4, more=1), setup=c14.setup, budget=B, reach=["end"]))
    return r
