"""Scenario families shared by the property checks."""
from . import expr as X
from .expr import E
from .explore import Stop
from .scen import *

ALL = ("align", "overlap", "access", "place", "usable", "canary", "zero", "guard", "scrub")


def sym_req(c, cls, name="s"):
    """a symbolic request of a size class (small: index; large: ('L', k))"""
    hm = c.hm
    if isinstance(cls, tuple):
        lo, hi = large_range(hm, cls[1], large_classes(hm, 1 << 36))
        return c.size(name, lo, hi)
    lo, hi = class_range(hm, cls)
    return c.size(name, lo, hi)


def lcls(cls):
    return None if isinstance(cls, tuple) else cls


# ------------------------------------------------------------------ allocations from a fresh slab, arbitrary randomness
def fresh_slab(c):
    P = c.params
    cls = P["cls"]
    fresh(c, *([cls] if isinstance(cls, int) else []), region=not isinstance(cls, int))
    h = Heap(c, P["checks"])
    s = sym_req(c, cls)
    c.info["size"] = s
    bs = []
    for i in range(P.get("n", 2)):
        b = h.malloc(s, lcls(cls))
        c.info["p%d" % i] = b.p
        bs.append(b)
    if P.get("refree", 1):
        h.free(bs[c.pick("which", len(bs)) if P.get("pickfree") else 0])
        h.malloc(s, lcls(cls))
    for b in h.blocks[:]:
        if P.get("freeall"):
            h.free(b)
    c.ok_kernel()
    c.reach("end")


# ------------------------------------------------------------------ full slabs, symbolic holes
def refill_setup(c):
    P = c.params
    hm = c.hm
    cls = P["cls"]
    n = hm.slots[cls] * P.get("slabs", 1)
    bl = fill(c, cls, n)
    ps = sorted(b.p for b in bl)
    return ps


def refill(c):
    """every slot of a slab is live; blocks at arbitrary indexes are freed, then as many are allocated with arbitrary randomness"""
    P = c.params
    hm, M = c.hm, c.M
    cls = P["cls"]
    ps = P["st"]
    size = hm.size_of(cls)
    n = hm.slots[cls]
    base = ps[0]
    fresh(c, cls)
    h = Heap(c, P["checks"])
    idx = []
    lr, lq = quar_lengths(hm, cls)
    for k in range(P.get("holes", 1)):
        i = c.size("fi", 0, n - 1)
        if n <= P.get("enum", 0):
            i = M.choose(i)
        for j in idx:
            c.assume(X.ne(64, i, j))
        idx.append(i)
        p = X.add(64, base, X.mul(64, i, size))
        c.info["free%d" % k] = p
        b = Block(p=p, req=class_range(hm, cls)[0], cls=cls, slot=size, usable=class_usable(hm, cls), span=size, arena=0, live=True)
        h.blocks.append(b)
        h.free(b)
    lo, hi = class_range(hm, cls)
    s = c.size("s", lo, hi)
    for k in range(P.get("holes", 1) + P.get("more", 0)):
        b = h.malloc(s, cls)
        c.info["new%d" % k] = b.p
        off = X.sub(64, b.p, base)
        inslab = X.ult(64, off, hm.slab_size(cls))
        if lr or lq:
            # held back: the new block is not in the full slab (which has only freed-but-held slots)
            c.prove(X.not_(inslab), "a block held back in quarantine (or a live one) was handed out")
        elif k < P.get("holes", 1):
            # reuse comes from the holes, never from a live slot
            ok = 0
            for f in idx:
                ok = X.bor(ok, X.eq(64, off, X.mul(64, f, size)))
            c.prove(X.bor(X.not_(inslab), ok), "a live block was handed out again")
            if P.get("mustreuse"):
                c.prove(ok, "a free slot of a partly used slab was not reused")
    c.ok_kernel()
    c.reach("end")


# ------------------------------------------------------------------ histories
def hist(c):
    """every sequence of steps over a menu of operations; sizes symbolic within their class; optional arbitrary randomness"""
    P = c.params
    hm, M = c.hm, c.M
    if P.get("sym"):
        fresh(c, *[k for k in P["classes"] if isinstance(k, int)], region=True)
    h = Heap(c, P["checks"])
    if P.get("st"):
        h0 = P["st"]
        h.blocks = [copyb(b) for b in h0.blocks]
        h.held = [copyb(b) for b in h0.held]
        h.nfree = dict(h0.nfree)
    menu = P["menu"]
    L = P["steps"]
    log = []
    c.info["ops"] = log
    for i in range(L):
        ops = [o for o in menu if step_ok(h, o)]
        o = ops[c.pick("op", len(ops))]
        log.append(str(o))
        step(c, h, o)
        if P.get("after"):
            P["after"](c, h, o)
    h.verify_all()
    if P.get("drain", 1):
        for b in h.blocks[:]:
            h.verify(b)
            h.free(b)
            if P.get("after"):
                P["after"](c, h, ("f",))
    c.ok_kernel()
    if P.get("final"):
        P["final"](c, h)
    c.reach("end")


def lists_setup(c):
    """full slabs of one class"""
    P = c.params
    hm = c.hm
    cls = P["cls"]
    h = Heap(c, ())
    first = [c.call("h_malloc", class_range(hm, cls)[1]) for i in range(P.get("skip", 0))]
    for i in range(P["slabs"] * hm.slots[cls]):
        h.mark(h.malloc(class_range(hm, cls)[1], cls))
    return h


def lists(c):
    """every sequence of steps which free blocks of chosen slabs, empty slabs, allocate and trim: slabs pass through the lists of partly used,
    cached and released slabs in every order; then the class is filled, trimmed, emptied and filled again"""
    P = c.params
    hm, M = c.hm, c.M
    cls = P["cls"]
    n, slab = hm.slots[cls], hm.slab_size(cls)
    h = Heap(c, ("overlap", "access"))
    h.blocks = [copyb(b) for b in P["st"].blocks]
    base = min(b.p for b in h.blocks)
    log = c.info["ops"] = []

    def of(i):
        ks = sorted({(b.p - base) // slab for b in h.blocks})
        return [b for b in h.blocks if (b.p - base) // slab == (ks[i] if i < len(ks) else None)]

    def al(k, fill=False):
        for i in range(k):
            h.mark(h.malloc(class_range(hm, cls)[1], cls))

    def drop(b):
        h.verify(b)
        h.free(b)
    S = P["slabs"]
    ops = ["free%d" % i for i in range(S)] + ["empty%d" % i for i in range(S)] + ["alloc1", "alloc%d" % n, "trim"]
    ops = [o for o in ops if o not in P.get("without", ())]
    for i in range(P["steps"]):
        if i == 0 and "first" in P:
            o = P["first"]
        else:
            o = ops[c.pick("op", len(ops))]
        log.append(o)
        if o.startswith("free"):
            bl = of(int(o[4:]))
            if not bl:
                raise Stop
            drop(bl[0])
        elif o.startswith("empty"):
            bl = of(int(o[5:]))
            if not bl:
                raise Stop
            for b in bl:
                drop(b)
        elif o == "trim":
            c.call("h_malloc_trim", 0)
        else:
            al(int(o[5:]))
        if P.get("after"):
            P["after"](c, h, (o,))
    h.verify_all()
    if P.get("final"):
        P["final"](c, h)
    al(n + 1)
    h.verify_all()
    c.call("h_malloc_trim", 0)
    h.verify_all()
    for b in h.blocks[::2]:
        drop(b)
    al(n)
    for b in h.blocks[:]:
        drop(b)
    al(2 * n)
    c.call("h_malloc_trim", 0)
    h.verify_all()
    for b in h.blocks[:]:
        drop(b)
    c.ok_kernel()
    c.reach("end")


def lists_tasks(Task, Cfg, B, steps=3, cls=36, slabs=3, prefix="lists", post=None, **params):
    """a task for each first step"""
    over = dict(SLOT_RANDOMIZE=False, EXTENDED_SIZE_CLASSES=False, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=0, ZERO_ON_FREE=False, WRITE_AFTER_FREE_CHECK=False)
    over.update(params.pop("over", {}))
    cfg = Cfg("default", name="no-ext,no-quarantine,first-slot,no-zeroing" + params.pop("label", ""), **over)
    r = []
    for f in ("free0", "free1", "empty0", "empty1"):
        r.append(Task("%s/%d/%s/%s" % (prefix, cls, cfg.name, f), cfg, lists, dict(cls=cls, slabs=slabs, steps=steps, first=f, **params), setup=lists_setup, budget=B, reach=["end"], post=post))
    return r


def dirty(c, b):
    """the owner stores an arbitrary word at an arbitrary place between its marks"""
    if b.cls == 0 or not isinstance(b.usable, int) or b.usable < 40:
        return
    o = X.shl(64, c.size("do", 1, (b.usable - 16) // 8 - 1), 3)
    c.wr(X.add(64, b.p, o), c.var("dv", 64), 8)


def symbolic_slot(c, ps, size, n, enum=0):
    """address of an arbitrary slot of a full slab"""
    sp = c.params.get("slots")
    if sp:        # chosen slots only
        sp = sorted({min(j, n - 1) for j in sp})
        i = sp[c.pick("slot", len(sp))]
    else:
        i = c.size("slot", 0, n - 1)
        if n <= enum:
            i = c.M.choose(i)
    return i, X.add(64, ps[0], X.mul(64, i, size))


def copyb(b):
    n = Block()
    for s in Block.__slots__:
        setattr(n, s, getattr(b, s))
    return n


def step_ok(h, o):
    if o[0] in ("f0", "f1", "r"):
        return len(h.blocks) > (1 if o[0] == "f1" else 0)
    return True


def step(c, h, o):
    hm = c.hm
    k = o[0]
    if k == "m":
        b = h.malloc(sym_req(c, o[1]), lcls(o[1]))
        h.mark(b)
        if c.params.get("dirty"):
            dirty(c, b)
    elif k == "mm":
        for _ in range(o[2]):
            b = h.malloc(sym_req(c, o[1]), lcls(o[1]))
            h.mark(b)
    elif k == "a":     # memalign
        al, req = o[1], o[2]
        p = c.call("h_aligned_alloc", al, req)
        b = h.got(p, req, aligned_class(hm, al, req), align=max(al, 16))
        h.mark(b)
    elif k == "f0":
        b = h.blocks[0]
        h.verify(b)
        h.free(b)
    elif k == "f1":
        b = h.blocks[-1]
        h.verify(b)
        h.free(b)
    elif k == "fa":
        for b in h.blocks[:]:
            h.verify(b)
            h.free(b)
    elif k == "r":
        b = h.blocks[-1]
        h.realloc(b, sym_req(c, o[1]), lcls(o[1]))
    elif k == "t":
        c.call("h_malloc_trim", 0)


def aligned_class(hm, al, req):
    n = req + hm.canary if 0 < req <= hm.maxslab else req
    if n > hm.maxslab or al > PAGE:
        return "large"
    if al <= 16:
        return doc_class(hm, req)
    for i, s in enumerate(hm.sizes):
        if i and s >= n and s % al == 0:
            return i
