from hmsym.explore import Stop
from hmsym.runner import Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from hmsym import fam, expr as X

PROP = Prop("C06", bounds=["reuse: full slab of each listed class, arbitrary slot, arbitrary word written by the owner at an arbitrary place; arbitrary word of the next block checked",
                           "histories of up to 5 (quick) or 7 (thorough) operations over several classes, large blocks, trim and realloc",
                           "calloc: every first factor against 14 second factors, and both factors arbitrary above 2^32"],
            assumptions=["the kernel hands out zero pages"])
Z = Cfg("default", ZERO_ON_FREE=False, WRITE_AFTER_FREE_CHECK=False, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, name="no-zero-on-free,no-quarantine")
ZL = Cfg("light", ZERO_ON_FREE=False, WRITE_AFTER_FREE_CHECK=False, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, SLAB_CANARY=False, name="light,no-zero-on-free,no-canary")
ZN = Cfg("light", ZERO_ON_FREE=False, WRITE_AFTER_FREE_CHECK=False, EXTENDED_SIZE_CLASSES=False, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, name="light,no-ext,no-zero-on-free,no-quarantine")


def reuse(c):
    P = c.params
    hm = c.hm
    cls = P["cls"]
    ps = P["st"]
    size, n, us = hm.size_of(cls), hm.slots[cls], class_usable(hm, cls)
    lo, hi = class_range(hm, cls)
    i, p = fam.symbolic_slot(c, ps, size, n, 8)
    c.info.update(slot=i)
    if hm.zof:
        fresh(c, cls)
        o = X.shl(64, c.size("o", 0, us // 8 - 1), 3)
        v = c.var("v", 64)
        c.wr(X.add(64, p, o), v, 8)
        c.info.update(off=o, value=v)
    how = c.pick("how", 3) if hm.zof else 0
    if how == 0:
        c.call("h_free", p)
    elif how == 1:
        c.call("h_free_sized", p, hi)
    else:
        c.call("h_realloc", p, 0)
    fns = P["fns"]
    fn = fns[c.pick("fn", len(fns))]
    s = (lo, hi - 7, hi - 1, hi)[3 - c.pick("edge", 4)] if P.get("edge") else c.size("s", lo, hi)
    q = c.call("h_calloc", *((1, s) if fn == "h_calloc" else (s, 1))) if fn in ("h_calloc", "calloc2") else c.call("h_realloc", 0, s) if fn == "h_realloc" else c.call("h_aligned_alloc", 16, s) if fn == "h_aligned_alloc" else c.call(fn, s)
    c.prove(X.ne(64, q, 0), "NULL although memory is available")
    h = Heap(c)
    c.info.update(fn=fn, s=s, new=q)
    if hm.zof:
        b = Block(p=q, usable=us)
        h.check_zero(b)
    else:
        k = c.size("k", 0, hi - 1)
        c.assume(X.ult(64, k, s))
        a = X.add(64, q, k)
        c.prove(X.eq(8, c.rd(a, 1), 0), "calloc memory is not zero")
    c.reach("end")


def grow(c):
    """the part of a resized block that holds no copied data"""
    P = c.params
    hm = c.hm
    a, b = P["from"], P["to"]
    ps = P["st"]
    size, n, us = hm.size_of(a), hm.slots[a], class_usable(hm, a)
    i, p = fam.symbolic_slot(c, ps, size, n, 8)
    lo, hi = class_range(hm, b)
    q = c.call("h_realloc", p, hi)
    c.prove(X.ne(64, q, 0), "NULL although memory is available")
    k = c.size("k", us // 8, class_usable(hm, b) // 8 - 1)
    x = X.add(64, q, X.shl(64, k, 3))
    c.prove(X.eq(64, c.rd(c.M._aligned(x) if isinstance(x, X.E) else x, 8), 0), "the new part of a resized block is not zero")
    c.reach("end")


def dirtyfill(c):
    ps = fam.refill_setup(c)
    for p in ps:
        for o in range(0, class_usable(c.hm, c.params["cls"]), 8):
            c.wr(p + o, 0xdddddddddddddddd, 8)
    return ps


def grow_setup(c):
    ps = fam.refill_setup(dict_params(c, cls=c.params["from"]))
    us = class_usable(c.hm, c.params["from"])
    for p in ps:
        for o in range(0, us, 8):
            c.wr(p + o, 0xdddddddddddddddd, 8)
    # a dirty and freed block of the target class
    hi = class_range(c.hm, c.params["to"])[1]
    q = [c.call("h_malloc", hi) for _ in range(2)]
    for o in range(0, class_usable(c.hm, c.params["to"]), 8):
        c.wr(q[0] + o, 0xeeeeeeeeeeeeeeee, 8)
    c.call("h_free", q[0])
    return ps


def dict_params(c, **k):
    c.params = dict(c.params, **k)
    return c


def overflow(c):
    P = c.params
    hm = c.hm
    a = c.var("a", 64)
    f = P["factors"]
    b = f[c.pick("b", len(f))]
    order = c.pick("order", 2)
    c.info.update(a=a, b=b)
    args = (a, b) if order == 0 else (b, a)
    c.set_errno(0)
    if P["mode"] == "overflow":
        c.assume(X.ult(64, ((1 << 64) - 1) // b, a))
        p = c.call("h_calloc", *args)
        c.prove(X.eq(64, p, 0), "calloc returned a block although the product does not fit")
        c.prove(X.eq(32, c.errno(), 12), "calloc does not set ENOMEM on overflow")
    else:
        # product in the range of one class
        ks = [k for k in P["classes"]]
        k = ks[c.pick("class", len(ks))]
        lo, hi = class_range(hm, k) if isinstance(k, int) else large_range(hm, k[1], large_classes(hm, 1 << 36))
        if hi // b < 1 or -(-lo // b) > hi // b:
            raise Stop
        c.assume(X.and_(1, X.ule(64, -(-lo // b), a), X.ule(64, a, hi // b)))
        p = c.call("h_calloc", *args)
        c.prove(X.ne(64, p, 0), "NULL although memory is available")
        u = c.call("h_malloc_usable_size", p)
        c.prove(X.ule(64, X.mul(64, a, b), u), "calloc block too small")
        x = c.size("k", 0, hi - 1)
        c.assume(X.ult(64, x, X.mul(64, a, b)))
        c.prove(X.eq(8, c.rd(X.add(64, p, x), 1), 0), "calloc memory is not zero")
    c.reach("end")


def overflow2(c):
    a, b = c.var("a", 64), c.var("b", 64)
    c.assume(X.and_(1, X.ule(64, 1 << 32, a), X.ule(64, 1 << 32, b)))
    c.info.update(a=a, b=b)
    c.set_errno(0)
    p = c.call("h_calloc", a, b)
    c.prove(X.eq(64, p, 0), "calloc returned a block although the product does not fit")
    c.prove(X.eq(32, c.errno(), 12), "calloc does not set ENOMEM on overflow")
    c.reach("end")


def tasks(tier, seed):
    T = tier == "thorough"
    B = 90 if T else 15
    r = []
    for cls in ((1, 2, 3, 5, 8, 9, 12, 16, 21, 25, 29, 33, 34, 36, 37, 41, 48) if T else (1, 3, 8, 9, 12, 21, 29, 34, 36, 48)):
        r.append(Task("reuse/%s/%d" % (NQ.name, cls), NQ, reuse, dict(cls=cls, fns=("h_malloc", "h_calloc", "h_realloc", "h_aligned_alloc")), setup=fam.refill_setup, budget=B, reach=["end"]))
        r.append(Task("reuse/%s/%d" % (L.name, cls), L, reuse, dict(cls=cls, fns=("h_malloc",)), setup=fam.refill_setup, budget=B, reach=["end"]))
        if cls < 30 or cls in (34, 36, 48):
            r.append(Task("calloc/%s/%d" % (Z.name, cls), Z, reuse, dict(cls=cls, edge=cls > 25, fns=("h_calloc", "calloc2"), slots=(0, 1, 300)), setup=dirtyfill, budget=B, reach=["end"]))
    for cls in (1, 5, 12):
        r.append(Task("calloc/%s/%d" % (ZL.name, cls), ZL, reuse, dict(cls=cls, fns=("h_calloc",), slots=(0, 1, 63, 64, 300)), setup=dirtyfill, budget=B, reach=["end"]))
    for cls in (12, 36):
        r.append(Task("calloc/%s/%d" % (ZN.name, cls), ZN, reuse, dict(cls=cls, edge=cls > 25, fns=("h_calloc", "calloc2"), slots=(0, 1, 63, 64, 300)), setup=dirtyfill, budget=B, reach=["end"]))
    for a, b in ((3, 4), (9, 13), (12, 29)):
        r.append(Task("grow/%d-%d" % (a, b), NQ, grow, {"from": a, "to": b}, setup=grow_setup, budget=B, reach=["end"]))
    f = [1, 2, 3, 7, 8, 24, 100, 4096, 65537, 1 << 32, (1 << 32) + 1, 1 << 62, 1 << 63, (1 << 64) - 1]
    for j in range(2):
        r.append(Task("calloc-overflow/%d" % j, D, overflow, dict(mode="overflow", factors=f[1 + j::2]), budget=B, reach=["end"]))
        r.append(Task("calloc-product/%d" % j, D, overflow, dict(mode="product", factors=f[j:10:2], classes=[1, 4, 9, 20, 36, ("L", 0)] if T else [1, 9, 36]), budget=B, reach=["end"]))
    r.append(Task("calloc-overflow/both", D, overflow2, {}, budget=B, reach=["end"]))
    n = 6 if T else 4
    menu = [("m", 36), ("mm", 33, 3), ("m", ("L", 0)), ("f0",), ("f1",), ("fa",), ("r", 36), ("r", ("L", 1)), ("t",), ("a", 64, 100)]
    for cfg in (NE, NEQ):
        r.append(Task("history/" + cfg.name, cfg, fam.hist, dict(classes=[], steps=n, checks=("zero",), menu=menu, dirty=1), budget=B * 2, reach=["end"]))
    return r
