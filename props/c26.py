from hmsym.explore import Stop
from hmsym.runner import Cfg, Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from hmsym import fam, expr as X
from hmsym.expr import E
from hmsym.machine import USER_BASE, ENOMEM

PROP = Prop("C26", bounds=["every class of both layouts, with and without canaries: every offset inside the usable part of live blocks at chosen slots (all slots up to 16, else first, second, middle and the two last)",
                           "slabs with a mixture of live, freed, held-back and never used slots: every byte of such slots aborts, bytes of live ones do not",
                           "every 64-bit address outside the area of small blocks, with up to 3 large blocks live and others freed, shrunk, grown or moved; before initialization every address",
                           "histories of up to 3 (quick) or 5 (thorough) operations followed by queries of every live block and of every freed small one"],
            assumptions=["pointers to the canary of a block and addresses in the range of small blocks that never held a block are not constrained"])
MAX = X.MASK[64]


def chosen(n):
    return list(range(n)) if n <= 16 else [0, 1, n // 2, n - 2, n - 1]


def query(c, p, fn="h_malloc_object_size"):
    """both queries of an address"""
    r = c.attempt(fn, p)
    f = c.attempt("h_malloc_object_size_fast", p)
    if f[0] != "ret":
        c.fail("malloc_object_size_fast: unexpected %s" % f[0])
    return r, f[1]


def live(c, p, off, rest, what):
    """p lies in a live block with that many bytes left"""
    c.info.update(off=off)
    (k, v), f = query(c, p)
    if k != "ret":
        c.fail("malloc_object_size of %s: unexpected %s" % (what, k))
    c.prove(X.eq(64, v, rest), "malloc_object_size of %s is not the number of bytes left" % what)
    c.prove(X.uge(64, f, v), "malloc_object_size_fast is below malloc_object_size for %s" % what)


def inside(c):
    """every offset inside live blocks of one class"""
    P = c.params
    hm, M = c.hm, c.M
    ps, cls = P["st"], P["cls"]
    size, n, us = hm.size_of(cls), hm.slots[cls], class_usable(hm, cls)
    sl = chosen(n)
    i = sl[c.pick("slot", len(sl))] if not P.get("all") else c.size("slot", 0, n - 1)
    p = X.add(64, ps[0], X.mul(64, i, size))
    c.info["slot"] = i
    if P.get("realloced"):
        c.call("h_realloc", p, class_range(hm, cls)[0] + 1)
    if cls == 0:
        live(c, p, 0, 0, "a live zero-size block")
    else:
        off = c.size("off", 0, us - 1)
        live(c, X.add(64, p, off), off, X.sub(64, us, off), "an address in a live small block")
        u = c.call("h_malloc_usable_size", p)
        c.prove(X.eq(64, u, us), "malloc_usable_size differs from malloc_object_size of the start")
    c.ok_kernel()
    c.reach("end")


def inside_setup(c):
    c.thread(c.params.get("tid", 0))
    bl = fill(c, c.params["cls"], c.hm.slots[c.params["cls"]], c.params.get("arena", 0))
    return sorted(b.p for b in bl)


def mixed(c):
    """slots in every state in one slab"""
    P = c.params
    hm, M = c.hm, c.M
    ps, cls = P["st"], P["cls"]
    size, n, us = hm.size_of(cls), hm.slots[cls], class_usable(hm, cls)
    sl = chosen(n)
    if P.get("never"):
        sl = sl[:len(ps)]
    i = sl[c.pick("slot", len(sl))]
    p = ps[0] + i * size
    state = ["live", "freed"] + (["again"] if not any(quar_lengths(hm, cls)) else ["other"])
    s = state[c.pick("state", len(state))]
    c.info.update(slot=i, state=s)
    fresh(c, cls)
    if s != "live":
        c.call("h_free", p)
    if s == "again":
        q = c.call("h_malloc", class_range(hm, cls)[1])
        if M.conc(q) != p:
            raise Stop
        s = "live"
    if s == "other":
        # pushed out of the random part or the queue by another block
        j = sl[(sl.index(i) + 1) % len(sl)]
        if j == i:
            raise Stop
        c.call("h_free", ps[0] + j * size)
        c.reach("pushed")
    off = c.size("off", 0, max(us, 1) - 1)
    a = X.add(64, p, off)
    if s == "live":
        live(c, a, off, X.sub(64, us, off) if cls else 0, "an address in a live small block")
    else:
        c.info.update(off=off)
        k, v = c.attempt("h_malloc_object_size", a)
        if k == "ret":
            c.fail("malloc_object_size of an address in freed small memory returns")
        if k != "fatal":
            c.fail("malloc_object_size: unexpected %s" % k)
        c.reach("freed")
    c.reach("end")


def never(c):
    """free slots of a partly used slab, at every byte"""
    hm, M = c.hm, c.M
    P = c.params
    cls = P["cls"]
    size, n, us = hm.size_of(cls), hm.slots[cls], class_usable(hm, cls)
    fresh(c, cls)
    p = c.call("h_malloc", class_range(hm, cls)[1])
    p = M.choose(p)
    m = [s for s in M.segs if s[0] <= p < s[1]][0]
    lo = p - (p - hm.slab_start) % hm.real
    base = None
    from props.c16 import mapped
    for a, b in mapped(M, lo, lo + hm.real):
        if a <= p < b:
            base = p - (p - a) % hm.slab_size(cls)
    i = (p - base) // size
    for j in {0, 1, n // 2, n - 1} - {i}:
        if j >= n or j < 0:
            continue
        off = c.size("off", 0, us - 1)
        c.info.update(slot=j, off=off)
        k, v = c.attempt("h_malloc_object_size", X.add(64, base + j * size, off))
        if k == "ret":
            c.fail("malloc_object_size of a slot that was not handed out returns")
        break
    c.reach("end")


def other(c):
    """every address that is not in the range of small blocks"""
    P = c.params
    hm, M = c.hm, c.M
    L = []
    if P.get("boot", 1):
        c.symbolic_random(False)
        L = P["st"]
        a = c.var("p", 64)
        lo, hi = P.get("range", (0, MAX))
        c.assume(X.band(X.uge(64, a, lo), X.ule(64, a, hi)))
        c.assume(X.bor(X.ult(64, a, hm.slab_start), X.uge(64, a, hm.slab_end)))
        c.assume(X.ne(64, a, 0))
    else:
        a = c.var("p", 64)
        c.assume(X.ne(64, a, 0))
    (k, v), f = query(c, a)
    if k != "ret":
        c.fail("malloc_object_size of an address that is not managed: unexpected %s" % k)
    within = 0
    for p, u in L:
        isp = X.eq(64, a, p)
        c.prove(X.bor(X.not_(isp), X.eq(64, v, u)), "malloc_object_size of the start of a live large block is not its size")
        d = X.sub(64, a, p)
        ins = X.ult(64, d, u)
        c.prove(X.bor(X.not_(ins), X.uge(64, v, X.sub(64, u, d))), "malloc_object_size of an address in a live large block is below the bytes left")
        within = X.bor(within, ins)
    c.prove(X.bor(within, X.eq(64, v, MAX)), "malloc_object_size of an address that is not managed is not the maximum")
    c.prove(X.uge(64, f, v), "malloc_object_size_fast is below malloc_object_size")
    c.ok_kernel()
    c.reach("end")


def other_setup(c):
    hm = c.hm
    L = []
    al = lambda n: L.append([c.call("h_malloc", n)])
    for n in c.params["sizes"]:
        al(n)
    for o in c.params.get("then", ()):
        if o == "free":
            c.call("h_free", L.pop(0)[0])
        elif o == "free-last":
            c.call("h_free", L.pop()[0])
        elif o[0] == "realloc":
            L[o[1]][0] = c.call("h_realloc", L[o[1]][0], o[2])
        elif o[0] == "aligned":
            L.append([c.call("h_aligned_alloc", o[1], o[2])])
    return [(p, c.call("h_malloc_usable_size", p)) for p, in L]


def final(c, h):
    pass


def after(c, h, o):
    """query every block after every step"""
    hm, M = c.hm, c.M
    for b in h.blocks:
        if b.cls is None:
            (k, v), f = query(c, b.p)
            if k != "ret":
                c.fail("malloc_object_size of a live large block: unexpected %s" % k)
            u = c.call("h_malloc_usable_size", b.p)
            c.prove(X.band(X.eq(64, v, u), X.uge(64, v, b.req)), "malloc_object_size of the start of a live large block is not its size")
            c.prove(X.uge(64, f, v), "malloc_object_size_fast is below malloc_object_size")
            c.reach("large")
        elif b.cls == 0:
            live(c, b.p, 0, 0, "a live zero-size block")
            c.reach("zero")
        else:
            u = b.usable if not isinstance(b.usable, E) else class_usable(hm, b.cls)
            off = [0, u - 1, u // 2][c.pick("place", 3)] if len(h.blocks) < 2 else u - 1
            live(c, X.add(64, b.p, off), off, u - off, "an address in a live small block")
            c.reach("small")


def tasks(tier, seed):
    T = tier == "thorough"
    B = 240 if T else 40
    r = []
    SR = dict(SLOT_RANDOMIZE=False)
    DN = Cfg("default", SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, name="default,no-slab-quarantine")
    DQ = Cfg("default", SLAB_QUARANTINE_RANDOM_LENGTH=1, SLAB_QUARANTINE_QUEUE_LENGTH=1, name="default,quarantine-1-1")
    LQ = Cfg("light", SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=1, name="light,queue-1")
    for cfg, N in ((D, 49), (NEL, 37)):
        ks = list(range(N)) if T else [0, 1, 3, 8, 9, 16, 24, 29, 36] + ([40, 44, 48] if N == 49 else [])
        for k in ks:
            r.append(Task("inside/%s/%d" % (cfg.name, k), cfg, inside, dict(cls=k, all=T and k and k < 20), setup=inside_setup, budget=B, reach=["end"]))
    r.append(Task("inside/arena-2", D, inside, dict(cls=5, tid=2, arena=2), setup=inside_setup, budget=B, reach=["end"]))
    r.append(Task("inside/realloced", D, inside, dict(cls=12, realloced=1), setup=inside_setup, budget=B, reach=["end"]))
    for cfg in (DN, DQ, LQ, L):
        for k in (0, 2, 10, 20, 30) + ((40, 48) if T or cfg is DQ else ()):
            r.append(Task("mixed/%s/%d" % (cfg.name, k), cfg, mixed, dict(cls=k), setup=inside_setup, budget=B, reach=["end", "freed"]))
    for cfg in (Cfg("default", SLOT_RANDOMIZE=False, name="default,no-slot-randomization"), L):
        for k in (1, 9, 30) if T else (9,):
            r.append(Task("never/%s/%d" % (cfg.name, k), cfg, never, dict(cls=k), budget=B, reach=["end"]))
    G = Cfg("default", EXTENDED_SIZE_CLASSES=False, REGION_QUARANTINE_RANDOM_LENGTH=1, REGION_QUARANTINE_QUEUE_LENGTH=1, name="no-ext,region-quarantine-1-1")
    HI = (1 << 47)
    for name, par in (("fresh", dict(sizes=[20])), ("large", dict(sizes=[300000, 16 << 20])), ("freed", dict(sizes=[300000] * 4, then=["free", "free"])),
                      ("resized", dict(sizes=[300000, 40 << 20, 500000], then=[("realloc", 0, 200000), ("realloc", 1, 80 << 20), ("realloc", 2, 900000)])),
                      ("aligned", dict(sizes=[200000], then=[("aligned", 1 << 20, 300000), "free"]))):
        for cfg in (G, L) if T else (G,):
            par = dict(par)
            par["sizes"] = [s for s in par["sizes"] if s > 100000]
            r.append(Task("other/%s/%s" % (name, cfg.name), cfg, other, par, setup=other_setup, budget=B, reach=["end"]))
    r.append(Task("uninitialized/default", D, other, dict(boot=0), boot=False, budget=B, reach=["end"]))
    r.append(Task("uninitialized/light", L, other, dict(boot=0), boot=False, budget=B, reach=["end"]))
    n = 5 if T else 3
    H = [(D, [2, 20, 48], ("L", 0)), (NEL, [0, 9, 36], ("L", 3)), (DN, [0, 30], ("L", 2))]
    for cfg, cl, lk in H:
        menu = [("m", k) for k in cl] + [("m", lk), ("f0",), ("f1",), ("r", cl[-1]), ("t",)]
        r.append(Task("hist/" + cfg.name, cfg, fam.hist, dict(steps=n, classes=cl, menu=menu, checks=(), after=after, drain=0), budget=B, reach=["end", "large", "small"]))
    return r
