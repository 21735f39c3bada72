from hmsym.explore import Stop
from hmsym.runner import Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from hmsym import fam, expr as X
from hmsym.expr import E

PROP = Prop("C11", bounds=["every pair of an old and a new size class from the listed ones (zero, small, large, over-aligned old blocks), sizes symbolic within each class; an arbitrary word at an arbitrary offset below the smaller size followed through the resize",
                           "one or two refused system calls at any position within the call", "sizes beyond half of the address space: any", "histories of up to 4 (quick) or 6 (thorough) operations made mainly of resizes"],
            assumptions=["refusal means ENOMEM of mmap, mprotect, mremap or munmap"])
ENOMEM = 12
BASE = 40 << 20      # above the size that is moved by remapping pages


def old_block(c, k):
    """k: class index, ('L', i), ('a', align, req), ('x', req) concrete"""
    hm = c.hm
    if isinstance(k, tuple) and k[0] == "a":
        p = c.call("h_aligned_alloc", k[1], k[2])
        k2 = fam.aligned_class(hm, k[1], k[2])
        return p, None if k2 == "large" else k2, k[2]
    if isinstance(k, tuple) and k[0] == "x":
        return c.call("h_malloc", k[1]), doc_class(hm, k[1]), k[1]
    s = fam.sym_req(c, k, "so")
    return c.call("h_malloc", s), fam.lcls(k), s


def new_req(c, k):
    if isinstance(k, tuple) and k[0] == "x":
        return k[1], doc_class(c.hm, k[1])
    return fam.sym_req(c, k, "sn"), fam.lcls(k)


def lo_of(x):
    return X.lo_(x) if isinstance(x, E) else x


def usable_of(hm, cls, req):
    return class_usable(hm, cls) if cls is not None else large_usable(hm, lo_of(req))


def resize(c):
    P = c.params
    hm, M = c.hm, c.M
    ko = P["old"][c.pick("old", len(P["old"]))]
    kn = P["new"][c.pick("new", len(P["new"]))]
    c.info.update(old=ko, new=kn)
    h = Heap(c)
    others = []
    for s in (700, 200000):
        b = h.malloc(s)
        h.mark(b)
        others.append(b)
    p, ocls, so = old_block(c, ko)
    ou = usable_of(hm, ocls, so)
    n, ncls = new_req(c, kn)
    c.info.update(so=so, sn=n, p=p)
    keep = min(ou, lo_of(n))
    W = 8 if keep >= 8 else 1
    v = o = None
    if keep:
        o = c.size("o", 0, keep // W - 1)
        o = X.shl(64, o, 3) if W == 8 else o
        v = c.var("v", 8 * W)
        c.wr(X.add(64, p, o), v, W)
    hit = faults(c, P) if P.get("faults") else None
    c.set_errno(0)
    q = c.call("h_realloc", p, n)
    M.ghost["fault"] = None
    if hit is not None and not hit[0] and hit[1]:
        raise Stop      # fewer fallible calls than the position chosen
    if c.branch(X.eq(64, q, 0)):
        if hit is None:
            c.fail("realloc failed although memory is available")
        if c.errno() != ENOMEM:
            c.fail("realloc failed with errno %s instead of ENOMEM" % c.errno())
        c.reach("failed")
        same(c, h, p, o, v, W, "contents lost by a failed realloc")
        u = c.call("h_malloc_usable_size", p)
        c.prove(X.eq(64, u, ou), "usable size changed by a failed realloc")
        for b in others:
            h.verify(b)
        if c.pick("again", 2):
            q = c.call("h_realloc", p, n)
            c.prove(X.ne(64, q, 0), "realloc failed although memory is available")
            same(c, h, q, o, v, W, "contents lost by a repeated realloc")
            c.call("h_free", q)
        else:
            c.call("h_free", p)
        for b in others:
            h.verify(b)
            h.free(b)
        c.ok_kernel()
        c.reach("end")
        return
    inplace = c.branch(X.eq(64, q, p))
    if ocls is not None and not (isinstance(ko, tuple) and ko[0] == "a"):
        if inplace != (ocls == ncls):
            c.fail("realloc moved the block although its size class does not change" if ocls == ncls else "realloc kept a block of another size class")
    if ocls is None and ncls is None and ou == usable_of(hm, None, n) and not inplace:
        c.fail("realloc moved a large block although its size does not change")
    if ocls is not None and ncls is None and inplace or ocls is None and ncls is not None and inplace:
        c.fail("realloc kept a block of another size class")
    if keep:
        same(c, h, q, o, v, W, "realloc lost the contents")
    nu = class_usable(hm, ncls) if ncls is not None else large_usable(hm, lo_of(n))
    u = c.call("h_malloc_usable_size", q)
    if ncls is None or not (inplace and isinstance(ko, tuple) and ko[0] == "a"):
        c.prove(X.eq(64, u, nu), "usable size of the resized block")
    h.check_access(Block(p=q, usable=nu, cls=ncls, req=n))
    for b in others:
        h.verify(b)
    if not inplace:
        c.reach("moved")
        for b in others:
            h.disjoint(Block(p=q, span=nu, cls=-1), b, "overlaps a live block")
        if c.pick("stale", 2):
            kd, r = c.attempt("h_free", p)
            if kd != "fatal":
                c.fail("the old block was not released by realloc (%s)" % kd)
            c.reach("stale")
            return
    else:
        c.reach("inplace")
    if keep and not P.get("faults"):
        # the new block is usable and belongs to the program
        c.wr(X.add(64, q, o), X.xor(8 * W, v, 1), W)
    c.call("h_free", q)
    for b in others:
        h.verify(b)
        h.free(b)
    c.ok_kernel()
    c.reach("end")


def same(c, h, q, o, v, W, msg):
    if o is None:
        return
    a = X.add(64, q, o)
    try:
        w = c.M.load(a, W)
    except Exception as e:
        if e.__class__.__name__ != "Segv":
            raise
        c.fail(msg + " (not accessible)")
    ev = c.M.events
    ev.append(("peek", a, W, w))
    c.prove(X.eq(8 * W, w, v), msg)
    ev.pop()


def faults(c, P):
    """refuse the k-th (and maybe the following) memory system call"""
    k = c.pick("fault", P["faults"])
    two = c.pick("fault2", 2) if P.get("two") else 0
    st = [0, 1]
    cnt = [0]

    def f(M, name, args):
        if name == "madvise":
            return 0
        i = cnt[0]
        cnt[0] += 1
        if i == k or two and i == k + 1:
            st[0] = 1
            return ENOMEM
        return 0
    c.M.ghost["fault"] = f
    return st


def huge(c):
    hm = c.hm
    P = c.params
    ks = P["old"]
    k = ks[c.pick("old", len(ks))]
    p, ocls, so = old_block(c, k)
    ou = usable_of(hm, ocls, so)
    o = v = None
    if ou >= 8:
        o = X.shl(64, c.size("o", 0, ou // 8 - 1), 3)
        v = c.var("v", 64)
        c.wr(X.add(64, p, o), v, 8)
    n = c.var("n", 64)
    c.assume(X.ult(64, (1 << 63) - 1, n))
    c.info.update(n=n, old=k)
    c.set_errno(0)
    q = c.call("h_realloc", p, n)
    c.prove(X.eq(64, q, 0), "realloc to an impossible size succeeded")
    c.prove(X.eq(32, c.errno(), ENOMEM), "errno of a failed realloc is not ENOMEM")
    same(c, Heap(c), p, o, v, 8, "contents lost by a failed realloc")
    u = c.call("h_malloc_usable_size", p)
    c.prove(X.eq(64, u, ou), "usable size changed by a failed realloc")
    c.call("h_free", p)
    c.ok_kernel()
    c.reach("end")


def null(c):
    """realloc(NULL, n) is malloc(n)"""
    P = c.params
    hm = c.hm
    k = P["cls"][c.pick("cls", len(P["cls"]))]
    fresh(c, *([k] if isinstance(k, int) and hm.slots[k] <= 8 or k == 0 else []))
    h = Heap(c, fam.ALL)
    s = fam.sym_req(c, k)
    c.info.update(s=s)
    b = h.malloc(s, fam.lcls(k), fn="h_realloc", args=(0, s))
    b2 = h.malloc(s, fam.lcls(k))
    h.free(b)
    h.free(b2)
    c.ok_kernel()
    c.reach("end")


def tasks(tier, seed):
    T = tier == "thorough"
    B = 90 if T else 15
    r = []
    sm = (0, 1, 2, 8, 9, 12, 21, 34, 36) if not T else (0, 1, 2, 3, 5, 8, 9, 10, 12, 16, 17, 21, 29, 30, 34, 35, 36)
    bigs = [("L", 0), ("L", 1), ("L", 5), ("L", "c")]
    for cfg in (D, NEL, NEQ):
        ex = (48, 45, 37) if cfg is D else ()
        news = sm + ex
        olds = [k for k in sm + ex]
        for j in range(0, len(olds), 3):
            r.append(Task("small/%s/%s" % (cfg.name, olds[j]), cfg, resize, dict(old=olds[j:j + 3], new=news), budget=B, reach=["end", "moved", "inplace", "stale"]))
        big = bigs if cfg.macros["SLAB_CANARY"] == "true" else bigs[:3]
        r.append(Task("small-large/%s" % cfg.name, cfg, resize, dict(old=olds[::3] + ([48] if cfg is D else [36]), new=big), budget=B, reach=["end", "moved"]))
        r.append(Task("large-small/%s" % cfg.name, cfg, resize, dict(old=big, new=olds), budget=B, reach=["end", "moved"]))
        r.append(Task("large-large/%s" % cfg.name, cfg, resize, dict(old=big, new=big), budget=B, reach=["end", "moved", "inplace"]))
        r.append(Task("aligned/%s" % cfg.name, cfg, resize, dict(old=[("a", 64, 40), ("a", 256, 300), ("a", 4096, 5000), ("a", 8192, 3000), ("a", 65536, 200000), ("a", 16384, 0) if cfg is not NEL else ("a", 16384, 1)],
                                                               new=[0, 3, 4, 12, 16, 21, ("L", 0), ("L", 3)]), budget=B, reach=["end", "moved"]))
        H = [("x", BASE), ("x", 32 << 20), ("x", BASE + 4096 * 3000), ("x", 300000)]
        r.append(Task("huge-moves/%s" % cfg.name, cfg, resize, dict(old=H, new=H), budget=B, reach=["end", "moved", "inplace"]))
        r.append(Task("faults/%s" % cfg.name, cfg, resize, dict(old=[0, 9, 36, ("L", 0), ("L", 3), ("a", 8192, 20000)], new=[0, 5, 34, ("L", 0), ("L", 2), ("L", 6)], faults=6, two=1), budget=B, reach=["end", "failed"]))
        r.append(Task("faults-huge/%s" % cfg.name, cfg, resize, dict(old=H, new=H, faults=9), budget=B, reach=["end", "failed"]))
        r.append(Task("impossible/%s" % cfg.name, cfg, huge, dict(old=[0, 1, 12, 36, ("L", 0), ("L", 4), ("a", 8192, 20000)]), budget=B, reach=["end"]))
        r.append(Task("null/%s" % cfg.name, cfg, null, dict(cls=sm + ex + tuple(big), enum=64), budget=B, reach=["end"]))
    n = 6 if T else 4
    menu = [("m", 36), ("mm", 33, 2), ("m", ("L", 0)), ("f0",), ("r", 36), ("r", 0), ("r", 5), ("r", ("L", 0)), ("r", ("L", 2)), ("a", 64, 100), ("a", 8192, 20000)]
    for cfg in (NE, NEQ, NEL):
        r.append(Task("history/" + cfg.name, cfg, fam.hist, dict(classes=[], steps=n, checks=("access", "overlap"), menu=menu, dirty=1, after=lambda c, h, o: h.verify_all()), budget=B, reach=["end"]))
    return r
