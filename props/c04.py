from hmsym.explore import Stop
from hmsym.runner import Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from hmsym.machine import USER_BASE
from hmsym import fam, expr as X

PROP = Prop("C04", bounds=["alignment: every 64-bit value (powers of two one by one, all others symbolically)", "sizes: the listed ones and every size of the listed classes",
                           "placement of aligned mappings: every 4 KiB aligned kernel address in a 64 MiB window"],
            assumptions=["the kernel refuses mappings above 2^46 bytes"])
EINVAL, ENOMEM_ = 22, 12
SENT = 0x5e1711e15e1711e1


def do_call(c, fn, al, size):
    """-> (error, pointer or None)"""
    if fn == "h_posix_memalign":
        c.wr(USER_BASE, SENT, 8)
        r = c.call(fn, USER_BASE, al, size)
        p = c.rd(USER_BASE, 8)
        return r, p
    c.set_errno(0)
    p = c.call(fn, al, size)
    if c.branch(X.eq(64, p, 0)):
        return c.errno(), p
    return 0, p


def bad_alignment(c):
    fn = c.params["fn"]
    al = c.var("al", 64)
    m = 8 if fn == "h_posix_memalign" else 1
    pow2 = X.and_(1, X.eq(64, X.and_(64, al, X.sub(64, al, 1)), 0), X.ne(64, al, 0))
    c.assume(X.bor(X.not_(pow2), X.ult(64, al, m)))
    size = c.var("size", 64)
    c.info.update(al=al, size=size)
    e, p = do_call(c, fn, al, size)
    c.prove(X.eq(32, X.trunc(32, e), EINVAL), "an invalid alignment is not rejected with EINVAL")
    if fn == "h_posix_memalign":
        c.prove(X.eq(64, p, SENT), "the output pointer is modified although the alignment is invalid")
    c.ok_kernel()
    c.reach("end")


def good_alignment(c):
    P = c.params
    hm = c.hm
    fn = P["fn"]
    lo, hi = P["shifts"]
    k = lo + c.pick("shift", hi - lo)
    al = 1 << k
    sizes = P["sizes"]
    size = sizes[c.pick("size", len(sizes))]
    if isinstance(size, tuple):
        size = fam.sym_req(c, size[1], "s")
    c.info.update(al=al, size=size)
    e, p = do_call(c, fn, al, size)
    if c.branch(X.ne(32, X.trunc(32, e), 0)):
        if size == 0:      # a null pointer is a valid answer to a zero-size request
            raise Stop
        c.prove(X.eq(32, X.trunc(32, e), ENOMEM_), "wrong error for a valid alignment")
        if al <= 1 << 40:
            c.fail("a valid aligned request fails although memory is available")
        if fn == "h_posix_memalign":
            c.prove(X.eq(64, p, SENT), "the output pointer is modified although the call failed")
        c.reach("enomem")
        return
    c.prove(X.eq(64, X.and_(64, p, max(al, 16) - 1), 0), "pointer not aligned to %d" % max(al, 16))
    u = c.call("h_malloc_usable_size", p)
    c.prove(X.ule(64, size, u), "block smaller than requested")
    c.ok_kernel()
    c.reach("end")


def plain(c):
    """malloc family without alignment argument"""
    P = c.params
    hm = c.hm
    k = P["cls"][c.pick("cls", len(P["cls"]))]
    fn = P["fns"][c.pick("fn", len(P["fns"]))]
    s = fam.sym_req(c, k)
    args = {"h_malloc": (s,), "h_calloc": (1, s), "h_realloc": (0, s), "h_valloc": (s,), "h_pvalloc": (s,)}[fn]
    c.info.update(fn=fn, s=s)
    p = c.call(fn, *args)
    if s == 0 and fn == "h_pvalloc" and c.branch(X.eq(64, p, 0)):
        raise Stop
    c.prove(X.ne(64, p, 0), "NULL although memory is available")
    al = 4096 if fn in ("h_valloc", "h_pvalloc") else 16
    c.prove(X.eq(64, X.and_(64, p, al - 1), 0), "pointer not aligned to %d" % al)
    u = c.call("h_malloc_usable_size", p)
    c.prove(X.ule(64, s, u), "block smaller than requested")
    c.reach("end")


def anywhere(c):
    """over-aligned block wherever the kernel puts the mapping"""
    P = c.params
    base = 0x200000000000
    off = c.size("where", 0, (1 << 14) - 1)

    def pol(M, length):
        return X.add(64, base, X.shl(64, off, 12))
    c.M.ghost["mmap_policy"] = pol
    al, size = P["al"], P["size"]
    c.info.update(where=off)
    p = c.call("h_aligned_alloc", al, size)
    c.prove(X.ne(64, p, 0), "NULL although memory is available")
    c.prove(X.eq(64, X.and_(64, p, al - 1), 0), "pointer not aligned to %d" % al)
    c.reach("end")


def tasks(tier, seed):
    T = tier == "thorough"
    B = 60 if T else 15
    r = []
    for cfg in (D, L, NEL):
        for fn in ("h_aligned_alloc", "h_posix_memalign", "h_memalign"):
            if fn == "h_memalign":
                continue
            r.append(Task("invalid/%s/%s" % (fn, cfg.name), cfg, bad_alignment, dict(fn=fn), budget=B, reach=["end"]))
            m = 3 if fn == "h_posix_memalign" else 0
            sizes = [0, 1, 40, 100, 1500, 4088, 10000, 16384, 20000, 131064, 131072, 200000, 3 << 20]
            if cfg is not D and not T:
                sizes = [0, 40, 1500, 16384, 200000]
            for a, b in ((m, 7), (7, 13), (13, 22)):
                r.append(Task("valid/%s/%s/%d" % (fn, cfg.name, a), cfg, good_alignment, dict(fn=fn, shifts=(a, b), sizes=sizes), budget=B, reach=["end"]))
            r.append(Task("valid-huge/%s/%s" % (fn, cfg.name), cfg, good_alignment, dict(fn=fn, shifts=(22, 64), sizes=[0, 100, 200000]), budget=B, reach=["end", "enomem"]))
        syms = [("s", k) for k in range(0, 37, 1 if T else 3)]
        r.append(Task("valid-symbolic/%s" % cfg.name, cfg, good_alignment, dict(fn="h_aligned_alloc", shifts=(3, 14), sizes=syms), budget=B * 2, reach=["end"]))
        n = 49 if cfg is not NEL else 37
        r.append(Task("plain/%s" % cfg.name, cfg, plain, dict(cls=list(range(0, n, 1 if T else 3)) + [("L", 0), ("L", 3), ("L", 10)], fns=["h_malloc", "h_calloc", "h_realloc"]), budget=B, reach=["end"]))
        r.append(Task("page/%s" % cfg.name, cfg, plain, dict(cls=list(range(0, n, 3 if T else 6)) + [("L", 0), ("L", 3)], fns=["h_valloc", "h_pvalloc"]), budget=B, reach=["end"]))
    for al in (8192, 65536, 1 << 20, 1 << 24) if T else (8192, 1 << 20):
        r.append(Task("anywhere/%d" % al, D, anywhere, dict(al=al, size=10000), budget=B, reach=["end"]))
    return r
