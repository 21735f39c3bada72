from hmsym.explore import Stop
from hmsym.runner import Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from hmsym import fam, expr as X
from hmsym.expr import E

PROP = Prop("C08", bounds=["full slab of each listed class with one freed block at an arbitrary slot; a non-zero byte written at an arbitrary place of its usable area after the free; next allocation reuses the slot",
                           "single-slot and emptied slabs reused from the empty slab cache", "blocks that pass through the slab quarantine (no-ext configuration, classes with quarantine length 1 to 4)"],
            assumptions=["zero-on-free and write-after-free check configured"])
FNS = ("h_malloc", "h_calloc", "h_aligned_alloc", "h_realloc", "realloc-move")


def again(c, fn, s, other=None):
    if fn == "h_calloc":
        return c.attempt(fn, s, 1)
    if fn == "h_aligned_alloc":
        return c.attempt(fn, 16, s)
    if fn == "h_realloc":
        return c.attempt(fn, 0, s)
    if fn == "realloc-move":
        return c.attempt("h_realloc", other, s)
    return c.attempt(fn, s)


def stray(c, p, us):
    """a byte of the freed block changes"""
    if us <= 64:
        o = c.size("o", 0, us - 1)
    else:           # first word, an arbitrary window position, last bytes
        W = c.params.get("windows", 3)
        w = c.pick("window", W)
        m = (us // 2 + 8) & ~7
        lo, hi = ((us - 9, us - 1), (0, 7), (m, m + 15), (64, 79) if us > 128 else (16, 31), (us - 64 & ~7, us - 33))[w]
        o = c.size("o", lo, hi)
    v = c.var("v", 8)
    c.assume(X.ne(8, v, 0))
    c.info.update(off=o, value=v)
    c.wr(X.add(64, p, o), v, 1)


def setup(c):
    ps = fam.refill_setup(c)
    return dict(ps=ps, other=c.call("h_malloc", 2100), other2=c.call("h_malloc", 300000))


def hole(c):
    P = c.params
    hm = c.hm
    cls = P["cls"]
    ps = P["st"]["ps"]
    size, n, us = hm.size_of(cls), hm.slots[cls], class_usable(hm, cls)
    lo, hi = class_range(hm, cls)
    i, p = fam.symbolic_slot(c, ps, size, n, 8)
    c.info.update(slot=i)
    c.call("h_free", p)
    stray(c, p, us)
    s = c.size("s", lo, hi)
    fn = P["fns"][c.pick("fn", len(P["fns"]))]
    c.info["fn"] = fn
    k, v = again(c, fn, s, P["st"]["other"])
    if k != "fatal":
        c.fail("a write after free was not detected when the block was reused (%s)" % k)
    c.reach("fatal")


def emptied(c):
    """all blocks of a slab are freed; the slab is cached while empty; a stray write; then it is used again"""
    P = c.params
    hm = c.hm
    cls = P["cls"]
    lo, hi = class_range(hm, cls)
    n, us = hm.slots[cls], class_usable(hm, cls)
    ps = [c.call("h_malloc", hi) for _ in range(n)]
    for p in ps:
        c.call("h_free", p)
    i = c.pick("which", n)
    stray(c, ps[i], us)
    s = c.size("s", lo, hi)
    for k in range(n):
        kind, v = again(c, "h_malloc", s)
        if kind == "fatal":
            c.reach("fatal")
            return
        if kind != "ret":
            c.fail("unexpected " + kind)
        c.prove(X.ne(64, v, ps[i]), "a write after free was not detected when the block was reused")
    c.fail("a free block of an empty cached slab was not reused")


def quarantined(c):
    """frees push the block through the quarantine; every later allocation either takes another block or aborts"""
    P = c.params
    hm = c.hm
    cls = P["cls"]
    ps = P["st"]["ps"]
    us = class_usable(hm, cls)
    lo, hi = class_range(hm, cls)
    n = len(ps)
    i = c.pick("victim", min(n, 3))
    p = ps[i]
    if P.get("sym"):
        fresh(c, cls)
    c.call("h_free", p)
    when = c.pick("when", 2)
    rest = [x for x in ps if x != p]
    if when == 0:
        stray(c, p, us)
    k = c.pick("more", P["more"]) + 1
    for x in rest[:k]:
        c.call("h_free", x)
    if when == 1:
        stray(c, p, us)
    for j in range(P["allocs"]):
        kind, v = again(c, "h_malloc", hi)
        if kind == "fatal":
            c.reach("fatal")
            return
        if kind != "ret":
            c.fail("unexpected " + kind)
        c.prove(X.ne(64, v, p), "a write after free was not detected when the block was reused")
    c.reach("unused")


def tasks(tier, seed):
    T = tier == "thorough"
    B = 90 if T else 15
    r = []
    cl = (1, 2, 3, 4, 5, 6, 8, 9, 11, 12, 16, 20, 21, 25, 29, 33, 34, 36) if T else (1, 3, 8, 9, 12, 21, 29, 34)
    for cfg in (NQ, NEQ):
        for cls in cl if cfg is NQ else (4, 36):
            r.append(Task("hole/%s/%d" % (cfg.name, cls), cfg, hole, dict(cls=cls, fns=FNS if T or cls < 13 else FNS[:3], slots=(0, 1, 301) if not T else (0, 1, 7, 70, 301), windows=5 if T else 3), setup=setup, budget=B, reach=["fatal"]))
        for cls in (33, 35, 36, 37, 41, 45, 48) if cfg is NQ else (33, 36):
            r.append(Task("emptied/%s/%d" % (cfg.name, cls), cfg, emptied, dict(cls=cls), budget=B, reach=["fatal"]))
    for cls, more in ((36, 3), (35, 4), (33, 7)):
        r.append(Task("quarantine/%s/%d" % (NE.name, cls), NE, quarantined, dict(cls=cls, more=more, allocs=4), setup=setup, budget=B, reach=["fatal"] if cls == 36 else []))
    r.append(Task("quarantine-random/%s/36" % NE.name, NE, quarantined, dict(cls=36, more=3, allocs=3, sym=1, enum=8), setup=setup, budget=B, reach=["fatal"]))
    NEQ1 = Cfg("default", EXTENDED_SIZE_CLASSES=False, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=1, name="no-ext,queue-1")
    NER1 = Cfg("default", EXTENDED_SIZE_CLASSES=False, SLAB_QUARANTINE_RANDOM_LENGTH=1, SLAB_QUARANTINE_QUEUE_LENGTH=0, name="no-ext,random-1")
    for cfg in (NEQ1, NER1):
        r.append(Task("quarantine/%s/36" % cfg.name, cfg, quarantined, dict(cls=36, more=3, allocs=4), setup=setup, budget=B, reach=["fatal"]))
    return r
