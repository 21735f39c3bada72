from hmsym.explore import Stop
from hmsym.runner import Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from hmsym import fam, expr as X
from hmsym.expr import E

PROP = Prop("C09", bounds=["full slab of each listed class, block in the first, second or last slot; the byte(s) of the canary that change, their new value, and every usable byte the owner writes are arbitrary",
                           "canary randomness: generator output arbitrary; every pattern of a set of 14 that separates all pairs of bits must be possible, in a first and in a later slab",
                           "histories of up to 4 (quick) or 6 (thorough) operations"],
            assumptions=["canaries configured"])


REL = Cfg("default", EXTENDED_SIZE_CLASSES=False, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=1,
          name="no-ext,no-quarantine,release-delay-1")


def setup(c):
    hm = c.hm
    cls = c.params["cls"]
    ps = fam.refill_setup(c)
    us = class_usable(hm, cls)
    return dict(ps=ps, can=[c.raw(p + us) for p in ps])


def released(c):
    """slabs of the class that were handed back to the kernel; the next slab is one of them"""
    hm = c.hm
    cls = c.params["cls"]
    n = hm.slots[cls]
    ps = [c.call("h_malloc", class_range(hm, cls)[1]) for _ in range(4 * n)]
    for p in ps:
        c.call("h_free", p)
    c.call("h_malloc_trim", 0)
    if any(c.prot(p) for p in ps):
        c.fail("an empty slab is still accessible after trim")
    return dict(old=ps)


def block(c):
    P = c.params
    hm = c.hm
    cls = P["cls"]
    ps = P["st"]["ps"]
    n = len(ps)
    sl = sorted({min(x, n - 1) for x in P["slots"]})
    j = sl[c.pick("slot", len(sl))]
    c.info["slot"] = j
    return j, ps[j], class_usable(hm, cls)


def use(c, p, us, how):
    lo, hi = class_range(c.hm, c.params["cls"])
    if how == "h_free":
        return c.attempt("h_free", p)
    if how == "h_free_sized":
        return c.attempt("h_free_sized", p, hi)
    if how == "h_free_aligned_sized":
        return c.attempt("h_free_aligned_sized", p, 16, lo)
    if how == "h_malloc_usable_size":
        return c.attempt(how, p)
    if how == "grow":
        return c.attempt("h_realloc", p, 200000)
    if how == "shrink":
        return c.attempt("h_realloc", p, 0)
    return c.attempt("h_realloc", p, 40 if c.params["cls"] != 3 else 300)


HOWS = ("h_free", "h_free_sized", "h_free_aligned_sized", "h_malloc_usable_size", "grow", "shrink", "other")


def corrupt(c):
    """the canary changes -> every release and the usable size query abort; and the overflow reaches no other block"""
    P = c.params
    hm = c.hm
    j, p, us = block(c)
    old = P["st"]["can"][j]
    if old & 255:
        c.fail("first byte of the canary is not zero")
    if c.pick("wide", 2):
        k, n = c.size("k", 0, 7), 1
        v = c.var("v", 8)
        c.assume(X.ne(8, v, X.trunc(8, X.lshr(64, old, X.shl(64, k, 3)))))
    else:
        k, n = 0, 8
        v = c.var("v", 64)
        c.assume(X.ne(64, v, old))
    c.info.update(byte=k, value=v)
    c.wr(X.add(64, p + us, k), v, n)
    for q in P["st"]["ps"]:
        if q != p and not (q >= p + us + 8 or q + us + 8 <= p):
            c.fail("an overflow of 8 bytes reaches another block")
    how = P["hows"][c.pick("how", len(P["hows"]))]
    c.info["how"] = how
    kind, r = use(c, p, us, how)
    if kind != "fatal":
        c.fail("a changed canary was not detected by %s (%s)" % (how, kind))
    c.reach("fatal")


def usable(c):
    """the owner writes any usable byte: nothing aborts and the canary is unchanged"""
    P = c.params
    hm = c.hm
    j, p, us = block(c)
    o = c.size("o", 0, us - 1)
    c.info["off"] = o
    c.wr(X.add(64, p, o), c.var("v", 8), 1)
    w = c.raw(p + us)
    c.M.events.append(("peek", p + us, 8, w))
    c.prove(X.eq(64, w, P["st"]["can"][j]), "a write inside the usable size changed the canary")
    how = P["hows"][c.pick("how", len(P["hows"]))]
    c.info["how"] = how
    kind, r = use(c, p, us, how)
    if kind != "ret":
        c.fail("%s of an intact block failed (%s)" % (how, kind))
    if how == "h_malloc_usable_size":
        c.prove(X.eq(64, r, us), "usable size does not end at the canary")
    c.ok_kernel()
    c.reach("end")


PATTERNS = [0, (1 << 56) - 1] + [int("".join("1" if (i >> b) & 1 else "0" for i in range(56)), 2) for b in range(6)] + \
    [int("".join("0" if (i >> b) & 1 else "1" for i in range(56)), 2) for b in range(6)]


def random(c):
    """the canary of a new slab: first byte zero, every value of the other bytes possible whatever the earlier ones were"""
    P = c.params
    hm = c.hm
    cls = P["cls"]
    us = class_usable(hm, cls)
    fresh(c, cls)
    lo, hi = class_range(hm, cls)
    s = c.size("s", lo, hi)
    fn = P["fn"][c.pick("fn", len(P["fn"]))]
    p = c.call(fn, s, 1) if fn == "h_calloc" else c.call(fn, 16, s) if fn == "h_aligned_alloc" else c.call(fn, 0, s) if fn == "h_realloc" else c.call(fn, s)
    h = Heap(c)
    if "old" in (P.get("st") or {}) and c.must(X.and_(1, X.ule(64, min(P["st"]["old"]), p), X.ule(64, p, max(P["st"]["old"])))):
        c.reach("again")
    a = X.add(64, p, us)
    a = c.M._aligned(a) if isinstance(a, E) else a
    v = c.M.rdword(a)
    h.peek_on_fail(X.eq(64, X.and_(64, v, 255), 0), a, v, "first byte of the canary is not zero")
    if not P.get("reuse"):
        top = X.extract(v, 63, 8)
        for x in PATTERNS:
            if c.must(X.ne(56, top, x)):
                c.M.events.append(("peek", a, 8, v))
                c.fail("the canary of a new slab cannot take the value %#x: it is not random" % (x << 8))
        c.reach("random")
    else:
        # same slab: the canary still is the slab's value
        pass
    c.call("h_free", p)
    c.ok_kernel()
    c.reach("end")


def after(c, h, o):
    """canaries of all live blocks stay as they were written"""
    for b in h.blocks:
        if b.cls and not isinstance(b.p, E):
            w = c.raw(b.p + b.usable)
            if b.canary is None:
                b.canary = w
                h.check_canary(b)
            h.peek_on_fail(X.eq(64, w, b.canary), b.p + b.usable, w, "the canary of a live block changed")


def tasks(tier, seed):
    T = tier == "thorough"
    B = 60 if T else 15
    r = []
    cl = (1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 14, 17, 20, 21, 25, 28, 29, 31, 33, 34, 36, 37, 40, 44, 48) if T else (1, 2, 8, 9, 12, 21, 29, 34, 36, 37, 48)
    sl = (0, 1, 3, 64, 500) if T else (0, 1, 500)
    for cfg in (D, NEQ):
        for cls in cl:
            if cfg is NEQ and (cls > 36 or not T and cls not in (1, 9, 36)):
                continue
            P = dict(cls=cls, hows=HOWS, slots=sl)
            r.append(Task("corrupt/%s/%d" % (cfg.name, cls), cfg, corrupt, P, setup=setup, budget=B, reach=["fatal"]))
            r.append(Task("usable/%s/%d" % (cfg.name, cls), cfg, usable, dict(P, hows=HOWS[:1] + HOWS[3:5]), setup=setup, budget=B, reach=["end"]))
            if cls != 2:     # (a block of class 2 is held back since initialisation: its slab is not full)
                r.append(Task("random/%s/%d" % (cfg.name, cls), cfg, random, dict(cls=cls, enum=8, fn=("h_malloc",) if cls != 9 else ("h_malloc", "h_calloc", "h_realloc", "h_aligned_alloc")), setup=setup, budget=B, reach=["random", "end"]))
            if cls in (3, 36):
                r.append(Task("random-first/%s/%d" % (cfg.name, cls), cfg, random, dict(cls=cls, enum=8, fn=("h_malloc",)), budget=B, reach=["random", "end"]))
    for cls in (9, 12, 29, 36):
        r.append(Task("random-released/%d" % cls, REL, random, dict(cls=cls, enum=8, fn=("h_malloc", "h_calloc")), setup=released, budget=B, reach=["random", "again", "end"]))
    n = 6 if T else 4
    menu = [("m", 36), ("mm", 33, 3), ("m", 5), ("f0",), ("f1",), ("r", 36), ("r", ("L", 1)), ("r", 5), ("a", 64, 100)]
    for cfg in (NE, NEQ):
        r.append(Task("history/" + cfg.name, cfg, fam.hist, dict(classes=[], steps=n, checks=("canary",), menu=menu, dirty=1, after=after), budget=B, reach=["end"]))
    return r
