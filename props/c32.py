from hmsym.explore import Stop
from hmsym.runner import Cfg, Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from hmsym import fam, expr as X
from hmsym.expr import E
from hmsym.machine import USER_BASE

PROP = Prop("C32", bounds=["every 64-bit expected size against blocks of every small class, the zero-size class and the first, middle and very large large classes; block sizes symbolic within the class",
                           "free_sized and its aligned form, sized and sized aligned delete and delete[]; blocks from malloc, calloc, realloc (in place, moved, shrunk, grown by mremap), aligned functions, reused slots",
                           "after an accepted call the block is released exactly once: a second release is fatal, later blocks do not overlap"],
            assumptions=["the aligned forms get the alignment the block was allocated with, the plain ones are used on blocks that were not over-aligned"])


def cid(hm, al, n):
    """documented class of a request"""
    m = n + hm.canary if 0 < n <= hm.maxslab else n
    if al > PAGE or m > hm.maxslab:
        if not m and hm.cfg["CONFIG_LARGE_SIZE_CLASSES"] != "true":
            return "none", 0
        return "L", large_round(hm, max(m, PAGE))
    return "S", fam.aligned_class(hm, al, n)


def accepted(hm, al, req):
    """[lo, hi] of the sizes that lead to the class of a request"""
    k = cid(hm, al, req)
    top = large_round(hm, max(req + hm.canary, PAGE)) if k[0] == "L" else 0
    cand = {0, 1, req}
    for s in [16 * i for i in range(1, 9)] + [x for x in hm.sizes if x] + [hm.maxslab, top]:
        cand |= {s - hm.canary, s - hm.canary + 1, s, s + 1}
    if k[0] == "L":
        # lower neighbour by bisection (classes are monotone)
        lo, hi = 0, req
        while lo < hi:
            m = (lo + hi) // 2
            if cid(hm, al, m) == k:
                hi = m
            else:
                lo = m + 1
        cand.add(lo)
    ok = [n for n in cand if n >= 0 and cid(hm, al, n) == k]
    return min(ok), max(ok)


def release(c, h, b, al, rng):
    """a sized release with an arbitrary size"""
    P = c.params
    hm, M = c.hm, c.M
    lo, hi = rng
    fns = P.get("fns") or (["h_free_sized"] if al <= 16 else ["h_free_aligned_sized"])
    fn = fns[c.pick("fn", len(fns))]
    kind = c.pick("part", 3)
    if kind == 1 and lo == 0:
        raise Stop
    n = c.size("n", *((lo, hi), (0, lo - 1), (hi + 1, X.MASK[64]))[kind])
    c.info["n"] = n
    c.info["fn"] = fn
    args = (b.p, al, n) if fn == "h_free_aligned_sized" else (b.p, n, al) if "align_val" in fn else (b.p, n)
    k, v = c.attempt(fn, *args)
    if kind == 0:
        if k != "ret":
            c.fail("a size of the block's class is not accepted (%s %s)" % (k, v))
        c.reach("accepted")
    else:
        if k != "fatal":
            c.fail("a size of another class is not detected (%s)" % k)
        c.reach("refused")
        raise Stop
    again = c.pick("again", 3)
    if again:
        k, v = c.attempt(fn, *args) if again == 1 else c.attempt("h_free", b.p)
        if k != "fatal":
            c.fail("the block was not released (second release: %s)" % k)
        c.reach("end")
        raise Stop
    h.freed(b)


def after(c, h, reqs):
    """later blocks are disjoint"""
    for r, k in reqs:
        h.malloc(r, k)
    h.verify_all()
    for b in h.blocks[:]:
        h.free(b)
    c.ok_kernel()
    c.reach("end")


def plain(c):
    """a block of a class, released with an arbitrary size"""
    P = c.params
    hm = c.hm
    c.symbolic_random(False)
    cls = P["classes"][c.pick("class", len(P["classes"]))]
    c.info["class"] = cls
    h = Heap(c, ("overlap",))
    how = P.get("how", ["malloc"])
    how = how[c.pick("how", len(how))]
    c.info["how"] = how
    if isinstance(cls, tuple):
        L = large_classes(hm, 1 << 36)
        lo, hi = large_range(hm, cls[1], L)
        s = c.size("s", lo, hi)
        concrete = hi
    else:
        lo, hi = class_range(hm, cls)
        s = c.size("s", lo, hi)
        concrete = hi
    k = None if isinstance(cls, tuple) else cls
    other = h.malloc(concrete, k) if k != 0 else None
    if other:
        c.wr(other.p, 0x77, 1)
    if how == "malloc":
        b = h.malloc(s, k)
    elif how == "reused":
        b = h.malloc(s, k)
        h.free(b)
        b = h.malloc(s, k)
    elif how == "calloc":
        b = h.malloc(s, k, fn="h_calloc", args=(1, s))
    elif how == "realloc":
        b = h.malloc(concrete, k)
        b = h.realloc(b, s, k)
    elif how == "moved":
        b = h.malloc(40 if cls != 3 else 100)
        b = h.realloc(b, s, k)
    elif how == "from-large":
        b = h.malloc(300000 + (concrete if concrete > 250000 else 0))
        b = h.realloc(b, s, k)
    elif how == "from-huge":
        b = h.malloc((48 << 20))
        b = h.realloc(b, s, k)
    elif how == "page":
        b = h.malloc(s, k, fn="h_aligned_alloc", args=(16, s))
    release(c, h, b, 16, accepted(hm, 16, concrete))
    after(c, h, [(concrete, k)] * 2)


def aligned(c):
    """over-aligned blocks with the aligned forms"""
    P = c.params
    hm = c.hm
    c.symbolic_random(False)
    al = P["als"][c.pick("al", len(P["als"]))]
    req = P["reqs"][c.pick("req", len(P["reqs"]))]
    c.info["al"], c.info["req"] = al, req
    if cid(hm, al, req)[0] == "none":
        raise Stop
    if P.get("new"):
        p = c.call(P["new"], req, al)
    else:
        p = c.call("h_aligned_alloc", al, req)
    c.prove(X.ne(64, p, 0), "allocation fails")
    k = cid(hm, al, req)
    h = Heap(c, ("overlap",))
    if k[0] == "S":
        b = h.got(p, req, k[1], align=al)
    else:
        b = Block(p=p, req=req, cls=None, live=True, usable=k[1], span=k[1])
        h.blocks.append(b)
    lo, hi = accepted(hm, al, req)
    release(c, h, b, al, (lo, hi))
    after(c, h, [])


def null(c):
    """releasing nothing does nothing, whatever the size"""
    fns = c.params["fns"]
    fn = fns[c.pick("fn", len(fns))]
    n = c.var("n", 64)
    args = (0, 64, n) if fn == "h_free_aligned_sized" else (0, n, 64) if "align_val" in fn else (0, n)
    k, v = c.attempt(fn, *args)
    if k != "ret":
        c.fail("%s of a null pointer fails" % fn)
    c.reach("end")


def foreign(c):
    """addresses that are no block are refused with every size"""
    P = c.params
    hm, M = c.hm, c.M
    c.symbolic_random(False)
    st = P["st"]
    which = c.pick("which", 6)
    p = [st[0] + 16, st[1] + 8, st[2] + 4096, USER_BASE + 64, st[3], st[4]][which]
    n = c.var("n", 64)
    c.info["n"] = n
    fn = ("h_free_sized", "h_free_aligned_sized")[c.pick("fn", 2)]
    k, v = c.attempt(fn, *((p, n) if fn == "h_free_sized" else (p, 64, n)))
    if k != "fatal":
        c.fail("sized release of an address which is no live block is not detected (%s)" % k)
    c.reach("end")


def foreign_setup(c):
    ps = [c.call("h_malloc", n) for n in (200, 24, 300000, 200, 300000)]
    c.call("h_free", ps[3])
    c.call("h_free", ps[4])
    return ps


def hist(c):
    """sized releases in longer histories"""
    P = c.params
    hm, M = c.hm, c.M
    c.symbolic_random(False)
    h = Heap(c, ("overlap",))
    sizes = P["sizes"]
    for j in range(P["steps"]):
        live = h.blocks
        n = len(sizes)
        o = c.pick("op", n + min(len(live), 2))
        if o < n:
            b = h.malloc(sizes[o])
            if sizes[o]:
                h.mark(b)
        else:
            b = live[(0, -1)[o - n]]
            lo, hi = accepted(hm, 16, b.req)
            n = c.size("n", lo, hi)
            k, v = c.attempt("h_free_sized", b.p, n)
            if k != "ret":
                c.fail("a size of the block's class is not accepted (%s %s)" % (k, v))
            h.freed(b)
    h.verify_all()
    c.reach("end")


def tasks(tier, seed):
    T = tier == "thorough"
    B = 240 if T else 40
    r = []
    NOR = dict(SLOT_RANDOMIZE=False, GUARD_SIZE_DIVISOR=100000)
    F = dict(SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, REGION_QUARANTINE_RANDOM_LENGTH=0, REGION_QUARANTINE_QUEUE_LENGTH=0)
    A = Cfg("default", name="no-quarantine", **NOR, **F)
    N = Cfg("default", name="no-quarantine,no-ext", EXTENDED_SIZE_CLASSES=False, **NOR, **F)
    NC = Cfg("default", name="no-quarantine,no-ext,no-canary", EXTENDED_SIZE_CLASSES=False, SLAB_CANARY=False, **NOR, **F)
    PG = Cfg("light", name="light,no-ext,page-large", EXTENDED_SIZE_CLASSES=False, LARGE_SIZE_CLASSES=False, **NOR)
    Q = Cfg("default", name="quarantine", **NOR)
    LI = Cfg("light", name="light", **NOR)
    CX = Cfg("default", cxx=True, name="c++", **NOR)
    for cfg in (A, N, NC, PG, Q, LI):
        n = 49 if cfg in (A, Q, LI) else 37
        ks = list(range(n)) if T or cfg in (A, N) else [0, 1, 3, 7, 20, n - 2, n - 1]
        parts = 3 if len(ks) > 20 else 1
        for i in range(parts):
            r.append(Task("small/%s/%d" % (cfg.name, i), cfg, plain, dict(classes=ks[i::parts]), budget=B, reach=["end", "accepted", "refused"]))
        lk = [("L", 0), ("L", 1), ("L", 5), ("L", 30), ("L", 41)] + ([("L", k) for k in (2, 3, 4, 12, 20, 36, 45)] if T else [])
        if cfg is PG:
            lk = [("L", 0), ("L", 1), ("L", 17)]
        r.append(Task("large/%s" % cfg.name, cfg, plain, dict(classes=lk), budget=B, reach=["end", "accepted", "refused"]))
    HW = ["reused", "calloc", "realloc", "moved", "from-large", "from-huge", "page"]
    for cfg, ks in ((A, [1, 4, 20, 48, ("L", 0), ("L", 3)]), (N, [0, 5, 36, ("L", 0), ("L", 2), ("L", 30)]), (Q, [2, 48, ("L", 1)])):
        for i in range(2):
            r.append(Task("how/%s/%d" % (cfg.name, i), cfg, plain, dict(classes=ks[i::2], how=HW), budget=B, reach=["end", "accepted", "refused"]))
    if any("h_free_aligned_sized" in t for t in open(__import__("hmsym.build").build.REPO + "/include/h_malloc.h")):
        for cfg in (A, N, PG):
            r.append(Task("aligned/" + cfg.name, cfg, aligned, dict(als=[16, 32, 64, 256, 4096, 8192, 1 << 20], reqs=[0, 1, 24, 100, 2000, 5000, 16384, 40000, 300000]), budget=B, reach=["end", "accepted", "refused"]))
        r.append(Task("null", A, null, dict(fns=["h_free_sized", "h_free_aligned_sized"]), budget=B, reach=["end"]))
    for cfg in (A, Q, N):
        r.append(Task("foreign/" + cfg.name, cfg, foreign, {}, setup=foreign_setup, budget=B, reach=["end"]))
    r.append(Task("c++", CX, plain, dict(classes=[1, 3, 10, 48, ("L", 0)], fns=["_ZdlPvm", "_ZdaPvm"]), budget=B, reach=["end", "accepted", "refused"]))
    r.append(Task("c++/null", CX, null, dict(fns=["_ZdlPvm", "_ZdaPvm", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t"]), budget=B, reach=["end"]))
    for f, g in (("_ZnwmSt11align_val_t", "_ZdlPvmSt11align_val_t"), ("_ZnamSt11align_val_t", "_ZdaPvmSt11align_val_t")):
        r.append(Task("c++/aligned/" + g, CX, aligned, dict(als=[16, 64, 4096, 8192], reqs=[0, 24, 100, 2000, 40000, 300000], new=f, fns=[g]), budget=B, reach=["end", "accepted", "refused"]))
    for cfg in (A, Q):
        r.append(Task("hist/" + cfg.name, cfg, hist, dict(steps=6 if T else 5, sizes=[0, 24, 16000, 300000]), budget=B, reach=["end"]))
    return r
