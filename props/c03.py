from hmsym.explore import Stop
from hmsym.runner import Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from hmsym.machine import USER_BASE
from hmsym import fam, expr as X

PROP = Prop("C03", bounds=["one block obtained by every allocation function (alignment: every power of two up to 64 KiB) with a symbolic size of each listed class, queried and released by every matching function",
                           "histories of up to 5 (quick) or 7 (thorough) operations with queries, then release of every block",
                           "lists: every sequence of 4 (quick) or 5 (thorough) steps over 3 slabs of a class (free a block, empty a slab, allocate a block or a slab's worth, trim), then fill, trim, empty and refill (no quarantine, first free slot)"],
            assumptions=["the program follows the allocation contract", "bounded random draws accepted at the first attempt (others: C22)"])

NEW = {0: ("_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t"), 1: ("_ZnwmSt11align_val_t", "_ZnamSt11align_val_tRKSt9nothrow_t")}
DEL = {"_Znwm": ("_ZdlPv", "_ZdlPvm", "_ZdlPvRKSt9nothrow_t"), "_Znam": ("_ZdaPv", "_ZdaPvm"), "_ZnwmRKSt9nothrow_t": ("_ZdlPv", "_ZdlPvm", "_ZdlPvRKSt9nothrow_t"),
       "_ZnwmSt11align_val_t": ("_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvSt11align_val_tRKSt9nothrow_t"),
       "_ZnamSt11align_val_tRKSt9nothrow_t": ("_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t")}


def obtain(c, fn, al, s):
    if fn == "h_calloc":
        return c.call(fn, s, 1)
    if fn == "h_realloc":
        return c.call(fn, 0, s)
    if fn == "h_aligned_alloc":
        return c.call(fn, al, s)
    if fn == "h_posix_memalign":
        c.wr(USER_BASE, 0, 8)
        c.call(fn, USER_BASE, al, s)
        return c.rd(USER_BASE, 8)
    if "align_val" in fn:
        return c.call(fn, s, al, 0)
    return c.call(fn, s, 0) if fn.startswith("_Zn") else c.call(fn, s)


def release(c, how, p, al, s):
    if how == "h_free_aligned_sized":
        c.call(how, p, al, s)
    elif how == "h_free_sized" or how in ("_ZdlPvm", "_ZdaPvm"):
        c.call(how, p, s)
    elif how in ("_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t"):
        c.call(how, p, s, al)
    elif how in ("_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvSt11align_val_tRKSt9nothrow_t"):
        c.call(how, p, al)
    else:
        c.call(how, p)


def pair(c):
    """allocate, query, use, optionally resize, release: nothing aborts"""
    P = c.params
    k = P["cls"][c.pick("cls", len(P["cls"]))]
    s = fam.sym_req(c, k)
    fn = P["fns"][c.pick("fn", len(P["fns"]))]
    al = 16
    if "align" in fn:
        sh = P["shifts"]
        al = 1 << sh[c.pick("al", len(sh))]
    elif fn in ("h_valloc", "h_pvalloc"):
        al = 4096
    c.info.update(fn=fn, al=al, s=s, cls=k)
    p = obtain(c, fn, al, s)
    if c.branch(X.eq(64, p, 0)):
        raise Stop          # availability: C04, C05
    u = c.call("h_malloc_usable_size", p)
    c.prove(X.ule(64, s, u), "usable size below the request")
    q = c.size("inside", 0, P["inside"])
    c.assume(X.bor(X.ult(64, q, u), X.eq(64, q, 0)))
    if not isinstance(k, tuple) and al <= 4096:
        c.call("h_malloc_object_size", X.add(64, p, q))
        c.call("h_malloc_object_size_fast", X.add(64, p, q))
    else:
        c.call("h_malloc_object_size", p)
    # the owner writes to the first and last byte it asked for
    if k != 0:
        c.wr(p, 0x41, 1)
        c.wr(X.add(64, p, X.sub(64, s, 1)), 0x42, 1)
    rel = P["rel"](fn)
    how = rel[c.pick("how", len(rel))]
    c.info["how"] = how
    if isinstance(how, tuple):        # realloc to another size, then free
        n = how[1]
        p2 = c.call("h_realloc", p, n)
        if c.branch(X.eq(64, p2, 0)):
            c.fail("realloc failed although memory is available")
        if n:
            c.rd(p2, 1)
        c.call("h_malloc_usable_size", p2)
        c.call("h_free_sized", p2, n)
    else:
        release(c, how, p, al, s)
    c.ok_kernel()
    c.reach("end")


def c_rel(fn):
    if fn in DEL:
        return DEL[fn]
    r = ("h_free", ("realloc", 0), ("realloc", 40), ("realloc", 5000), ("realloc", 200000), "h_cfree")
    if fn in ("h_malloc", "h_calloc", "h_realloc"):
        r += ("h_free_sized",)
    if fn in ("h_aligned_alloc", "h_posix_memalign"):
        r += ("h_free_aligned_sized",)
    return r


def queries(c, h, o):
    for b in h.blocks:
        c.call("h_malloc_usable_size", b.p)
        c.call("h_malloc_object_size", b.p)
        c.call("h_malloc_object_size_fast", b.p)


def aslabs(c):
    """over-aligned and zero-size blocks beyond the first slab"""
    P = c.params
    hm = c.hm
    k = P["cls"]
    s = class_range(hm, k)[1]
    ps = [c.call("h_malloc", s) for _ in range(P["n"])]
    i = c.pick("i", len(ps))
    q = X.add(64, ps[i], c.size("o", 0, max(class_usable(hm, k) - 1, 0)))
    c.call("h_malloc_object_size", q)
    c.call("h_malloc_usable_size", ps[i])
    how = c.pick("how", 3)
    if how == 0:
        c.call("h_free", ps[i])
    elif how == 1:
        c.call("h_free_sized", ps[i], s)
    else:
        c.call("h_realloc", ps[i], 300)
    c.reach("end")


def ends(c):
    """operations that need no live block: null pointers, trim, statistics, mallopt; before and after use"""
    hm = c.hm
    for i in range(2):
        o = c.pick("op", 12)
        f = [("h_free", 0), ("h_free_sized", 0, 77), ("h_realloc", 0, 10), ("h_malloc_usable_size", 0), ("h_malloc_object_size", 0), ("h_malloc_object_size_fast", 0), ("h_malloc_trim", 0),
             ("h_mallopt", 1, 2), ("h_malloc_stats",), ("h_malloc_get_state",), ("h_malloc_set_state", 0), ("h_malloc_object_size", 0x4242)][o]
        c.call(*f)
    c.call("h_free", c.call("h_malloc", 100))
    c.reach("end")


def tasks(tier, seed):
    T = tier == "thorough"
    B = 90 if T else 15
    r = []
    CX = Cfg("default", cxx=True, name="default,c++")
    CXL = Cfg("light", cxx=True, name="light,c++")
    CXN = Cfg("default", cxx=True, EXTENDED_SIZE_CLASSES=False, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, REGION_QUARANTINE_RANDOM_LENGTH=1, REGION_QUARANTINE_QUEUE_LENGTH=1, name="no-ext,no-slab-quarantine,c++")
    sh = (3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16)
    for cfg in (CX, CXL, CXN):
        n = 49 if cfg is not CXN else 37
        full = list(range(0, n, 1 if T or cfg is CX else 4))
        for j in range(4):
            ks = full[j::4] + ([("L", 0), ("L", 5)] if j == 1 else [("L", "c"), ("L", 2)] if j == 2 else [])
            ks2 = full[j::8 if not T else 4] + ([("L", 1)] if j == 1 else [])
            P = dict(cls=ks, shifts=sh, rel=c_rel, inside=4096)
            P2 = dict(P, cls=ks2)
            r.append(Task("plain/%s/%d" % (cfg.name, j), cfg, pair, dict(P, fns=("h_malloc", "h_calloc", "h_realloc")), budget=B, reach=["end"]))
            r.append(Task("page/%s/%d" % (cfg.name, j), cfg, pair, dict(P2, fns=("h_valloc", "h_pvalloc")), budget=B, reach=["end"]))
            r.append(Task("new/%s/%d" % (cfg.name, j), cfg, pair, dict(P, fns=NEW[0]), budget=B, reach=["end"]))
            if j < 2 or T or cfg is CX:
                r.append(Task("aligned/%s/%d" % (cfg.name, j), cfg, pair, dict(P2, fns=("h_aligned_alloc", "h_posix_memalign")), budget=B, reach=["end"]))
                r.append(Task("aligned-new/%s/%d" % (cfg.name, j), cfg, pair, dict(P2, fns=NEW[1]), budget=B, reach=["end"]))
    for cfg in (D, NQ):
        for k, n in ((0, 520), (12, 130), (34, 3), (36, 9), (48, 4)) if T else ((0, 260), (34, 5), (48, 3)):
            r.append(Task("slabs/%s/%d" % (cfg.name, k), cfg, aslabs, dict(cls=k, n=n), budget=B, reach=["end"], max_paths=300 if not T else 100000))
    r.append(Task("null", D, ends, {}, budget=B, reach=["end"]))
    r.append(Task("null-uninitialized", D, ends, {}, boot=False, budget=B, reach=["end"]))
    n = 6 if T else 4
    menu = [("m", 36), ("mm", 33, 3), ("m", ("L", 0)), ("m", 0), ("f0",), ("f1",), ("fa",), ("r", 36), ("r", 0), ("r", ("L", 1)), ("t",), ("a", 64, 100), ("a", 8192, 20000)]
    for cfg in (NE, NEQ, NEL):
        r.append(Task("history/" + cfg.name, cfg, fam.hist, dict(classes=[], steps=n, checks=(), menu=menu, after=queries), budget=B * 2, reach=["end"]))
    r += fam.lists_tasks(Task, Cfg, B, steps=5 if T else 4)
    return r
