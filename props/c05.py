from hmsym.explore import Stop
from hmsym.runner import Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from hmsym.machine import USER_BASE
from hmsym import fam, expr as X

PROP = Prop("C05", bounds=["request: every 64-bit value, split by documented size class", "aligned requests: powers of two up to 4096 for small sizes, 8 KiB and 1 MiB for large ones"],
            assumptions=["the kernel refuses mappings above 2^46 bytes"])
ENOMEM_ = 12
FNS = ("h_malloc", "h_calloc", "h_calloc2", "h_realloc", "realloc-small", "realloc-large")


def alloc(c, fn, s):
    if fn == "h_calloc":
        return c.call("h_calloc", 1, s)
    if fn == "h_calloc2":
        return c.call("h_calloc", s, 1)
    if fn == "h_realloc":
        return c.call("h_realloc", 0, s)
    if fn == "realloc-small":
        return c.call("h_realloc", c.params["st"]["small"], s)
    if fn == "realloc-large":
        return c.call("h_realloc", c.params["st"]["large"], s)
    return c.call(fn, s)


def setup(c):
    return dict(small=c.call("h_malloc", 48), large=c.call("h_malloc", 700000))


def check_block(c, h, p, s, k):
    hm = c.hm
    c.prove(X.ne(64, p, 0), "NULL although memory is available")
    if not isinstance(k, tuple):
        b = h.got(p, s, k)
        u = c.call("h_malloc_usable_size", p)
        c.prove(X.eq(64, u, class_usable(hm, k)), "usable size is not that of the documented size class")
        c.prove(X.ule(64, s, u), "usable size below the request")
        if k and hm.canary:
            c.prove(X.ule(64, X.add(64, u, 8), hm.sizes[k]), "no room for the canary")
    else:
        cl = large_classes(hm, 1 << 60)
        want = large_usable(hm, X.hi_(s) if isinstance(s, E) else s)
        u = c.call("h_malloc_usable_size", p)
        c.prove(X.eq(64, u, want), "usable size of a large block is not the documented one")
        c.prove(X.ule(64, s, u), "usable size below the request")
        if c.M.plog:
            return
        try:
            c.M.check_range(p, want, 3)
        except Exception as e:
            if e.__class__.__name__ != "Segv":
                raise
            c.fail("usable bytes are not accessible")
        if c.prot(p + up(want)) & 3 or c.prot(p + want - 1) != 3 or c.prot(p) != 3:
            c.fail("the block does not end with the last page of its usable size")


def small(c):
    P = c.params
    ks = P["cls"]
    k = ks[c.pick("cls", len(ks))]
    fn = P["fns"][c.pick("fn", len(P["fns"]))]
    h = Heap(c, ("place", "align", "access"))
    s = fam.sym_req(c, k)
    c.info.update(cls=k, fn=fn, s=s)
    if fn == "realloc-small" and k == doc_class(c.hm, 48) or isinstance(k, tuple) and large_usable(c.hm, X.hi_(s)) == large_usable(c.hm, 700000) and fn == "realloc-large":
        raise Stop
    check_block(c, h, alloc(c, fn, s), s, k)
    c.ok_kernel()
    c.reach("end")


def huge(c):
    """requests that cannot be satisfied"""
    P = c.params
    fn = P["fn"]
    s = c.var("s", 64)
    c.assume(X.ult(64, 1 << 46, s))
    c.info["s"] = s
    c.set_errno(0)
    if fn == "h_posix_memalign":
        c.wr(USER_BASE, 77, 8)
        r = c.call(fn, USER_BASE, P["al"], s)
        c.prove(X.eq(32, X.trunc(32, r), ENOMEM_), "a request that is too large does not fail with ENOMEM")
        c.prove(X.eq(64, c.rd(USER_BASE, 8), 77), "output pointer modified on failure")
    else:
        if fn in ("h_aligned_alloc", "h_memalign"):
            p = c.call(fn, P["al"], s)
        else:
            p = alloc(c, fn, s)
        c.prove(X.eq(64, p, 0), "a request that is too large returned a block")
        c.prove(X.eq(32, c.errno(), ENOMEM_), "a request that is too large does not fail with ENOMEM")
    c.ok_kernel()
    c.reach("end")


def aligned(c):
    """aligned requests: the block is one of the documented sizes that is a multiple of the alignment, the smallest that fits"""
    P = c.params
    hm = c.hm
    al = 1 << (5 + c.pick("shift", 8))
    k = P["cls"][c.pick("cls", len(P["cls"]))]
    s = fam.sym_req(c, k)
    c.info.update(al=al, s=s, cls=k)
    p = c.call("h_aligned_alloc", al, s)
    c.prove(X.ne(64, p, 0), "NULL although memory is available")
    want = None
    hi = class_range(hm, k)[1]
    for i, z in enumerate(hm.sizes):
        if (i or k == 0 and False) and z % al == 0 and z >= (hi + hm.canary if k else 1):
            want = i
            break
    u = c.call("h_malloc_usable_size", p)
    if want is None:
        c.fail("no class")
    if k == 0:
        c.prove(X.eq(64, c.call("h_malloc_usable_size", p), u), "")
        raise Stop
    c.prove(X.eq(64, u, class_usable(hm, want)), "usable size of an aligned block is not that of the smallest fitting class")
    h = Heap(c, ("place", "access"))
    b = Block(p=p, req=s, cls=want, slot=hm.size_of(want), usable=class_usable(hm, want), span=hm.size_of(want), arena=0, live=True)
    c.prove(X.ule(64, X.sub(64, p, hm.slab_start + want * hm.real), hm.real - b.slot), "aligned block outside its class range")
    h.check_access(b)
    c.reach("end")


def aligned_large(c):
    """alignments above a page: a large block of the documented size, whatever the request"""
    P = c.params
    hm = c.hm
    al = 1 << (13 + P["shifts"][c.pick("shift", len(P["shifts"]))])
    k = P["cls"][c.pick("cls", len(P["cls"]))]
    s = fam.sym_req(c, k)
    c.info.update(al=al, s=s)
    if c.pick("posix", 2):
        c.wr(USER_BASE, 0, 8)
        c.call("h_posix_memalign", USER_BASE, al, s)
        p = c.rd(USER_BASE, 8)
    else:
        p = c.call("h_aligned_alloc", al, s)
    if isinstance(k, tuple):
        check_block(c, None, p, s, k)
    else:
        check_block(c, None, p, s, ("L", "small"))
    c.ok_kernel()
    c.reach("end")


def tasks(tier, seed):
    T = tier == "thorough"
    B = 60 if T else 15
    r = []
    nocan = Cfg("default", SLAB_CANARY=False, name="default,no-canary")
    for cfg in (D, L, NEL, nocan) if T else (D, NEL, nocan):
        n = 37 if cfg is NEL else 49
        for i in range(0, n, 7):
            r.append(Task("small/%s/%d" % (cfg.name, i), cfg, small, dict(cls=list(range(i, min(i + 7, n))), fns=FNS if cfg is D or T else ("h_malloc",)), setup=setup, budget=B, reach=["end"]))
        nl = 70 if cfg is not NEL else 40
        r.append(Task("large/%s" % cfg.name, cfg, small, dict(cls=[("L", "c")] * (cfg is not nocan) + [("L", j) for j in range(0, nl, 1 if T else 3)], fns=FNS if cfg is D else ("h_malloc",)), setup=setup, budget=B * 2, reach=["end"]))
        r.append(Task("aligned/%s" % cfg.name, cfg, aligned, dict(cls=list(range(1, 37, 1 if T else 3))), budget=B, reach=["end"]))
        ks = [1, 2, 9, 16, 20, 25, 30, 33, 36] + ([37, 40, 44, 48] if n == 49 else []) + [("L", j) for j in range(0, nl - 30, 1 if T else 4)]
        r.append(Task("aligned-large/%s" % cfg.name, cfg, aligned_large, dict(cls=ks, shifts=list(range(8)) if T else [0, 1, 7], enum=64), budget=B, reach=["end"]))
        for fn in FNS + ("h_valloc", "h_pvalloc") if cfg is D or T else ("h_malloc", "realloc-large"):
            r.append(Task("huge/%s/%s" % (fn, cfg.name), cfg, huge, dict(fn=fn), setup=setup, budget=B, reach=["end"]))
        for fn in ("h_aligned_alloc", "h_posix_memalign"):
            for al in (16, 4096, 8192, 1 << 20) if cfg is D or T else (16, 1 << 20):
                r.append(Task("huge/%s/%d/%s" % (fn, al, cfg.name), cfg, huge, dict(fn=fn, al=al), setup=setup, budget=B, reach=["end"]))
    return r
