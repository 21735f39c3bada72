from hmsym.explore import Stop
from hmsym.runner import Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from hmsym.machine import USER_BASE
from hmsym import fam, expr as X
from hmsym.expr import E

PROP = Prop("C15", bounds=["every function that can return a zero-size block, with both factors of a zero product arbitrary; up to 5 (quick) or 7 (thorough) blocks with every interleaving of frees, resizes and trims",
                           "slabs given back and used again; full slabs (256 zero-size blocks) with an arbitrary freed slot, arbitrary randomness, up to 3 slabs", "after every call no page of the zero-size class ranges of any arena is accessible"],
            assumptions=["the kernel grants every request (refusals: C18)"])


def inaccessible(c):
    """no part of a zero size class range has ever been given access (every event of the path)"""
    hm, M = c.hm, c.M
    for a in range(hm.narena):
        lo = hm.slab_start + a * hm.nclass * hm.real
        hi = lo + hm.real
        for s in M.segs:
            if s[0] < hi and lo < s[1] and s[2] & 3:
                c.prot(max(lo, s[0]))
                c.fail("memory of the zero-size class is accessible")
        for e in M.events[c.info.get("ne", 0):]:
            if e[0] in ("mprotect", "pkey_mprotect") and isinstance(e[1], int) and isinstance(e[2], int) and e[1] < hi and lo < e[1] + e[2] and (e[3] & 3 if isinstance(e[3], int) else 1) and e[-1] == 0:
                c.fail("memory of the zero-size class was made accessible")




def get(c, h, o):
    fn, args, al = "h_malloc", (0,), 16
    if o == "calloc0":
        n = c.var("n", 64)
        args = (0, n) if c.pick("side", 2) else (n, 0)
        fn = "h_calloc"
    elif o == "realloc":
        fn, args = "h_realloc", (0, 0)
    elif o == "aligned":
        al = 1 << c.pick("al", 5)
        fn, args = "h_aligned_alloc", (al, 0)
    elif o == "posix":
        al = 8
        c.wr(USER_BASE, 0, 8)
        c.prove(X.eq(32, c.call("h_posix_memalign", USER_BASE, 8, 0), 0), "posix_memalign failed")
        return check(c, h, c.rd(USER_BASE, 8))
    return check(c, h, c.call(fn, *args))


def check(c, h, p):
    b = h.got(p, 0, 0)
    c.prove(X.eq(64, c.call("h_malloc_usable_size", p), 0), "usable size of a zero-size block is not 0")
    k, v = c.attempt("h_malloc_object_size_fast", p)
    if k != "ret":
        c.fail("malloc_object_size_fast aborted on a zero-size block")
    c.prove(X.eq(64, v, 0), "malloc_object_size_fast of a zero-size block is not 0")
    c.prove(X.eq(64, c.call("h_malloc_object_size", p), 0), "malloc_object_size of a zero-size block is not 0")
    return b


def hist(c):
    P = c.params
    if P.get("sym", 1):
        fresh(c, 0)
    h = Heap(c, ("align", "overlap", "place", "access"))
    big = h.malloc(200, doc_class(c.hm, 200))
    h.mark(big)
    log = c.info["ops"] = []
    for i in range(P["steps"]):
        z = [b for b in h.blocks if b.cls == 0]
        ops = [o for o in P["menu"] if o not in ("f0", "f1", "r0", "r100") or z and (o != "f1" or len(z) > 1)]
        o = ops[c.pick("op", len(ops))]
        log.append(o)
        if o in ("f0", "f1"):
            h.free(z[0 if o == "f0" else -1])
        elif o == "r0":
            b = z[-1]
            q = c.call("h_realloc", b.p, 0)
            c.prove(X.eq(64, q, b.p), "realloc of a zero-size block to zero moved it")
        elif o == "r100":      # and back
            b = z[-1]
            nb = h.realloc(b, 100, doc_class(c.hm, 100))
            h.realloc(nb, 0, 0)
        elif o == "shrink":
            b = h.malloc(P.get("from", 300))
            h.realloc(b, 0, 0)
        elif o == "t":
            c.call("h_malloc_trim", 0)
        else:
            get(c, h, o)
        inaccessible(c)
    # every one of them can be freed exactly once
    z = [b for b in h.blocks if b.cls == 0]
    h.verify(big)
    if z:
        b = z[c.pick("which", len(z))]
        how = [("h_free",), ("h_free_sized", 0), ("h_cfree",)][c.pick("how", 3)]
        c.call(how[0], b.p, *how[1:])
        h.freed(b)
        inaccessible(c)
        expect_fatal(c, "h_free", b.p)
    c.reach("end")


def setup(c):
    return sorted(c.call("h_malloc", 0) for _ in range(256 * c.params["slabs"]))


def full(c):
    """full slabs: an arbitrary block is freed; nothing live is handed out again"""
    P = c.params
    hm = c.hm
    ps = P["st"]
    fresh(c, 0)
    if len(set(ps)) != len(ps) or 0 in ps:
        c.fail("zero-size blocks are not distinct")
    for p in ps:
        if c.M.prot(p >> 12) & 3:
            c.prot(p)
            c.fail("zero-size block is accessible")
    i, p = fam.symbolic_slot(c, ps[:256], 16, 256)
    c.info["freed"] = p
    c.prove(X.eq(64, c.call("h_malloc_usable_size", p), 0), "usable size of a zero-size block is not 0")
    c.call("h_free", p)
    inaccessible(c)
    for j in range(P["more"]):
        q = get(c, Heap(c, ("align", "place", "access")), "malloc").p
        for b in P.get("win", ps[::37]):
            c.prove(X.bor(X.ne(64, q, b), X.eq(64, b, p)), "a live zero-size block was handed out again")
        inslab = X.ult(64, X.sub(64, q, ps[0]), 4096)
        c.prove(X.bor(X.not_(inslab), X.eq(64, q, p)), "a live zero-size block was handed out again")
    inaccessible(c)
    if P.get("twice"):
        q2 = X.add(64, ps[0], X.shl(64, c.size("q2", 0, 255), 4))
        k, v = c.attempt("h_free", q2)
        if k == "ret":
            c.prove(X.ne(64, q2, p), "second free of a zero-size block was not detected")
            c.reach("single")
        elif k == "fatal":
            c.prove(X.eq(64, q2, p), "first free of a zero-size block aborted")
            c.reach("double")
        else:
            c.fail("free of a zero-size block: %s" % k)
    c.reach("end")


def churn(c):
    """slabs of zero-size blocks become empty and are reused"""
    P = c.params
    h = Heap(c, ("align", "place", "access"))
    seen = {}
    for r in range(P["rounds"]):
        n = 256 * P["slabs"] - 3 * r
        bl = []
        for i in range(n):
            p = c.call("h_malloc", 0)
            if p == 0 or p in seen:
                c.fail("zero-size blocks are not distinct")
            seen[p] = 1
            bl.append(p)
        inaccessible(c)
        if c.pick("trim", 2):
            c.call("h_malloc_trim", 0)
        keep = bl[c.pick("keep", 2)::5][:3]
        for p in bl:
            if p not in keep:
                c.call("h_free", p)
                del seen[p]
        c.call("h_malloc_trim", 0)
        inaccessible(c)
    for p in list(seen):
        c.call("h_free", p)
    inaccessible(c)
    c.reach("end")


def released_setup(c):
    """so many empty slabs of zero-size blocks that some were given back, the released ones are next in line"""
    n, k = c.params["slabs"], c.hm.slots[0]
    for r in range(c.params.get("rounds", 1)):
        a = [c.call("h_malloc", 0) for _ in range(n * k)]
        for p in a:
            c.call("h_free", p)
    return [c.call("h_malloc", 0) for _ in range(c.params["again"] * k)]


def released(c):
    """blocks of slabs which were released before"""
    P = c.params
    inaccessible(c)
    h = Heap(c, ("align", "place", "access"))
    seen = set(P["st"])
    nx = P["st"][:]
    for i in range(P["steps"]):
        o = P["menu"][c.pick("op", len(P["menu"]))]
        if o == "f":
            c.call("h_free", nx.pop())
            seen = set(nx) | {b.p for b in h.blocks}
        elif o == "t":
            c.call("h_malloc_trim", 0)
        else:
            b = get(c, h, o)
            if b.p in seen:
                c.fail("zero-size blocks are not distinct")
            seen.add(b.p)
        inaccessible(c)
    c.reach("end")


def tasks(tier, seed):
    T = tier == "thorough"
    B = 90 if T else 12
    r = []
    menu = ["malloc", "calloc0", "realloc", "aligned", "posix", "f0", "f1", "r0", "r100", "shrink", "t"]
    SR = Cfg("default", SLOT_RANDOMIZE=False, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, name="default,no-slot-randomize,no-slab-quarantine")
    for cfg in (D, L, NEQ, SR):
        r.append(Task("history/" + cfg.name, cfg, hist, dict(menu=menu, steps=(5 if T else 3) + (cfg is SR)), budget=B, reach=["end", "fatal"]))
    r.append(Task("deep/" + SR.name, SR, hist, dict(menu=["malloc", "f0", "f1", "r100", "t"], steps=8 if T else 6, sym=0), budget=B, reach=["end"]))
    r.append(Task("large-to-zero", NE, hist, {"menu": ["malloc", "shrink", "f0", "t"], "steps": 4, "sym": 0, "from": 70000}, budget=B, reach=["end"]))
    r.append(Task("over-aligned-slabs", Cfg("default", SLOT_RANDOMIZE=False, N_ARENA=1, name="default,no-slot-randomize,1-arena"), hist, dict(menu=menu, steps=4 if T else 3, sym=0), budget=B, reach=["end"]))
    for cfg in (D, NQ, L):
        for s in (1, 2) + ((3,) if T else ()):
            r.append(Task("full/%s/%d" % (cfg.name, s), cfg, full, dict(slabs=s, more=2, twice=0), setup=setup, budget=B, reach=["end"]))
        r.append(Task("twice/%s" % cfg.name, cfg, full, dict(slabs=1, more=0, twice=1), setup=setup, budget=B, reach=["end", "single", "double"]))
    for ext, n in ((False, 20), (True, 36)):
        for sr in (False, True):
            cfg = Cfg("default", EXTENDED_SIZE_CLASSES=ext, SLOT_RANDOMIZE=sr, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=1, GUARD_SLABS_INTERVAL=3,
                      name="%sno-slab-quarantine,free-slabs-1,guard-slabs-3%s" % ("" if ext else "no-ext,", "" if sr else ",no-slot-randomize"))
            r.append(Task("released/" + cfg.name, cfg, released, dict(slabs=n, again=n - 3, steps=4 if T else 3, menu=["malloc", "realloc", "aligned", "f", "t"], enum=0), setup=released_setup, budget=B, reach=["end"]))
            r.append(Task("released-all/" + cfg.name, cfg, released, dict(slabs=n, rounds=2, again=n, steps=1, menu=["malloc", "t"]), setup=released_setup, budget=B, reach=["end"]))
    for cfg in (NQ, D, SR, Cfg("default", SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=1, GUARD_SLABS_INTERVAL=2, name="default,no-slab-quarantine,free-slabs-1,guard-slabs-2")):
        r.append(Task("churn/%s" % cfg.name, cfg, churn, dict(slabs=3, rounds=2), budget=B, reach=["end"]))
    return r
