from hmsym.explore import Stop
from hmsym.runner import Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from hmsym.machine import USER_BASE, Unsupported
from hmsym import fam, expr as X
from hmsym.expr import E

PROP = Prop("C12", bounds=["one or two large blocks of each listed size class (up to 32 MiB), sizes symbolic within the class, guard length arbitrary (enumerated up to 64 values, symbolic above)",
                           "over-aligned blocks with alignments 8 KiB to 4 MiB", "histories of up to 4 (quick) or 6 (thorough) allocations, resizes and frees; every live large block is inspected after every step"],
            assumptions=["addresses of mappings chosen by the kernel model (ascending), also adjacent to each other"])


def limit_pages(hm, size):
    return max((size // PAGE) // hm.guard_div, 1)


def inspect(c, h, b, first):
    """guards of a live large block"""
    hm, M = c.hm, c.M
    p, end = b.p, b.p + up(b.usable)
    if M.plog:
        raise Unsupported("mapping of symbolic length")
    r = mapping_range(M, p)
    if r is None:
        c.fail("large block outside any mapping")
    lo, hi, mid = r
    for a, w in ((p - 1, "before"), (end, "after")):
        s = M.seg_at(a)
        if s is None or s[2] & 3 or s[4] != mid:
            c.prot(a)
            c.fail("no reserved inaccessible page directly %s a large block" % w)
    # nothing accessible between the ends of the reservation and the block
    for s in M.segs:
        if s[0] < hi and s[1] > lo and s[2] & 3 and (s[0] < p or s[1] > end):
            c.prot(s[0])
            c.fail("accessible memory outside the usable pages of a large block")
    g, g2 = p - lo, hi - end
    if first:
        b.hi = hi
        mx = limit_pages(hm, b.usable)
        if not PAGE <= g <= mx * PAGE or g % PAGE:
            c.fail("guard of %#x bytes before a block of %#x; documented are 1 to %d pages" % (g, b.usable, mx))
        b.guard = g
    elif b.usable != b.fill:      # shrunk in place: what lies after the guard may be held back
        b.hi = None
    b.fill = b.usable
    if g != b.guard or (g2 < b.guard if b.hi is None and not first else g2 != b.guard):
        c.fail("guards of %#x and %#x bytes around a large block, it was given %#x" % (g, g2, b.guard))


def obtain(c, h, k):
    """(block) by one of the allocation functions"""
    P = c.params
    hm = c.hm
    fn = P["fns"][c.pick("fn", len(P["fns"]))]
    if isinstance(k, tuple) and k[0] == "a":
        al, lo, hi = k[1:]
        u = large_usable(hm, lo)
        if large_usable(hm, hi) != u:
            hi = max(lo, min(hi, u - hm.canary))
        s = c.size("s", lo, hi)
        c.info.update(al=al, s=s)
        if c.pick("posix", 2):
            c.wr(USER_BASE, 0, 8)
            c.call("h_posix_memalign", USER_BASE, al, s)
            p = c.rd(USER_BASE, 8)
        else:
            p = c.call("h_aligned_alloc", al, s)
        c.prove(X.ne(64, p, 0), "allocation returned NULL although memory is available")
        c.prove(X.eq(64, X.and_(64, p, al - 1), 0), "misaligned")
        return Block(p=p, req=s, usable=large_usable(hm, lo), cls=None)
    s = fam.sym_req(c, k)
    c.info.update(fn=fn, s=s)
    p = c.call(fn, s, 1) if fn == "h_calloc" else c.call(fn, 0, s) if fn == "h_realloc" else c.call(fn, s)
    c.prove(X.ne(64, p, 0), "allocation returned NULL although memory is available")
    lo = X.lo_(s) if isinstance(s, E) else s
    return Block(p=p, req=s, usable=large_usable(hm, lo), cls=None)


def one(c):
    P = c.params
    hm = c.hm
    h = Heap(c)
    c.M.ghost["mmap_gap"] = P.get("gap", 0x10000)
    if P.get("sym", 1):
        fresh(c, region=True)
    ks = P["ks"]
    bs = []
    for i in range(P.get("n", 1)):
        k = ks[c.pick("k", len(ks))]
        b = obtain(c, h, k)
        if isinstance(b.p, E):
            b.p = c.M.choose(b.p)
        bs.append(b)
        h.check_access(b)
        inspect(c, h, b, True)
        for x in bs[:-1]:
            inspect(c, h, x, False)
    c.ok_kernel()
    c.reach("end")


def symbolic(c):
    """guard length as one symbolic value"""
    P = c.params
    hm, M = c.hm, c.M
    fresh(c, region=True)
    k = P["ks"][c.pick("k", len(P["ks"]))]
    n0 = len(M.events)
    s = fam.sym_req(c, k)
    c.info["s"] = s
    p = c.call("h_malloc", s)
    lo = X.lo_(s) if isinstance(s, E) else s
    u = large_usable(hm, lo)
    mm = [e for e in M.events[n0:] if e[0] == "mmap"]
    base = T = None
    for e in mm:
        base, T = e[5], e[2]
    g = X.sub(64, p, base)
    c.info.update(guard=g, length=T)
    mx = limit_pages(hm, u)
    c.prove(X.and_(1, X.ule(64, PAGE, g), X.ule(64, g, mx * PAGE)), "guard length outside the documented bounds of 1 to %d pages" % mx)
    c.prove(X.eq(64, X.and_(64, g, 4095), 0), "guard length not a multiple of the page size")
    c.prove(X.eq(64, X.sub(64, T, u), X.shl(64, g, 1)), "guards before and after a large block differ")
    for a in (X.sub(64, p, 1), X.add(64, p, u), base, X.add(64, X.sub(64, X.add(64, base, T), 1), 0), X.sub(64, p, c.size("before", 1, PAGE)), X.add(64, X.add(64, p, u), c.size("after", 0, PAGE - 1))):
        for m in (1, 2):
            c.prove(X.not_(M.valid_cond(a, 1, m)), "guard of a large block is accessible")
    o = c.size("o", 0, u - 1)
    for m in (1, 2):
        c.prove(M.valid_cond(X.add(64, p, o), 1, m), "usable byte of a large block not accessible")
    c.reach("end")


def after(c, h, o):
    for b in h.blocks:
        if b.cls is None and b.usable is not None:
            if isinstance(b.p, E):
                b.p = c.M.choose(b.p)
            first = b.guard is None or b.stamp != b.p
            if first and b.guard is not None and b.stamp != b.p:
                b.guard = None
            inspect(c, h, b, first)
            b.stamp = b.p
    for b in h.held:
        pass


def tasks(tier, seed):
    T = tier == "thorough"
    B = 90 if T else 15
    r = []
    DIV1 = Cfg("default", GUARD_SIZE_DIVISOR=1, name="guard-divisor-1")
    DIV7 = Cfg("default", EXTENDED_SIZE_CLASSES=False, GUARD_SIZE_DIVISOR=7, LARGE_SIZE_CLASSES=False, name="no-ext,page-large,guard-divisor-7")
    fns = ("h_malloc", "h_calloc", "h_realloc")
    al = [("a", 8192, 1, 4096 - 8), ("a", 8192, 4097, 8184), ("a", 16384, 20481, 24568), ("a", 65536, 1, 4096 - 8), ("a", 65536, 200000, 200000), ("a", 1 << 20, 131073, 163840), ("a", 4 << 20, 300000, 300001)]
    for cfg in (D, L, NEQ, NEL, DIV1, DIV7):
        ks = [("L", 0), ("L", 1), ("L", 2), ("L", 3)] + ([("L", "c")] if cfg.macros["SLAB_CANARY"] == "true" else []) + ([("L", 7), ("L", 9)] if T else [])
        r.append(Task("one/%s" % cfg.name, cfg, one, dict(ks=ks, fns=fns, enum=64), budget=B, reach=["end"]))
        r.append(Task("two/%s" % cfg.name, cfg, one, dict(ks=ks[:2], fns=fns[:1], enum=64, n=2, gap=0), budget=B, reach=["end"]))
        r.append(Task("aligned/%s" % cfg.name, cfg, one, dict(ks=al, fns=fns[:1], enum=128), budget=B, reach=["end"]))
        sk = [("L", 0), ("L", 4), ("L", 8), ("L", 12), ("L", 20), ("L", 25)] if cfg not in (NEL, DIV7) else [("L", 0), ("L", 1), ("L", 30), ("L", 63)]
        if cfg in (NEQ,) and not T:
            sk = sk[:-1]
        r.append(Task("symbolic/%s" % cfg.name, cfg, symbolic, dict(ks=sk), budget=B, reach=["end"]))
    n = 6 if T else 4
    menu = [("m", ("L", 0)), ("m", ("L", 3)), ("m", 36), ("f0",), ("f1",), ("r", ("L", 0)), ("r", ("L", 2)), ("r", ("L", 4)), ("r", 5), ("a", 8192, 20000), ("a", 65536, 70000), ("a", 1 << 20, 300000)]
    for cfg in (NE, NEQ, NEL, D):
        r.append(Task("history/" + cfg.name, cfg, fam.hist, dict(classes=[], steps=n, checks=("access",), menu=menu, after=after), budget=B, reach=["end"]))
    return r
