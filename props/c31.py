from hmsym.explore import Stop
from hmsym.runner import Cfg, Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from props.c23 import draws
from hmsym.conc import Sched
from hmsym import fam, expr as X
from hmsym.expr import E
from hmsym.machine import USER_BASE, Unsupported

PROP = Prop("C31", bounds=["1, 2, 3, 4, 7 and 256 arenas; 2N+1 new threads (N+3 for 256) whose first call is any of 9 operations; every 32-bit value of the assignment counter",
                           "all allocation functions for every size class, symbolic sizes within the class, after other threads were assigned, after failed calls, frees and resizes of other threads' blocks",
                           "every pair of calling and owning arena: free, sized free, resize (in place, moved, small to large and back) of blocks of the first to the last size class",
                           "2 and 3 threads making their first calls at once: every schedule with up to 2 (quick) or 3 (thorough) preemptions, also between the accesses to the assignment counter",
                           "class regions of 1 MiB filled completely at both extreme offsets: first, middle and last block released by their own and by another arena's thread"],
            assumptions=["threads start with freshly initialised thread-local storage", "the round may start over when the 32-bit counter of threads wraps around (number of arenas not a power of two)"])

CRS = 1 << 30
N1 = Cfg("default", N_ARENA=1, name="default,1-arena")
N2 = Cfg("default", N_ARENA=2, name="default,2-arenas")
N3 = Cfg("default", N_ARENA=3, name="default,3-arenas")
N7 = Cfg("default", N_ARENA=7, CLASS_REGION_SIZE=CRS, name="default,7-arenas")
N256 = Cfg("default", N_ARENA=256, CLASS_REGION_SIZE=CRS, EXTENDED_SIZE_CLASSES=False, name="no-ext,256-arenas")
RAW = dict(native=False)
Q0 = dict(SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0)
NOZ = dict(ZERO_ON_FREE=False, WRITE_AFTER_FREE_CHECK=False)
DET = dict(Q0, SLOT_RANDOMIZE=False)


def arena_of(c, p, what="a small block"):
    hm = c.hm
    M = c.M
    c.prove(X.ne(64, p, 0), "allocation returned NULL although memory is available")
    v = M.conc(p)
    if v is None:
        v = M.choose(p)
    if not hm.slab_start <= v < hm.slab_start + hm.narena * hm.nclass * hm.real:
        c.fail("%s outside the arenas" % what)
    return cls_arena_at(hm, v)[0]


FIRST = ["malloc", "calloc", "realloc", "posix_memalign", "aligned_alloc", "large", "free", "usable", "fail"]


def first(c, op, help):
    """the first call of a thread"""
    if op == "malloc":
        return c.call("h_malloc", 40)
    if op == "calloc":
        return c.call("h_calloc", 3, 100)
    if op == "realloc":
        return c.call("h_realloc", 0, 700)
    if op == "posix_memalign":
        if c.call("h_posix_memalign", USER_BASE, 64, 200):
            c.fail("allocation failed although memory is available")
        return c.rd(USER_BASE, 8)
    if op == "aligned_alloc":
        return c.call("h_aligned_alloc", 128, 1000)
    if op == "large":
        c.call("h_malloc", 300000)
    elif op == "free":
        c.call("h_free", help.pop())
    elif op == "usable":
        c.call("h_malloc_usable_size", help[0])
    elif op == "fail":
        if c.call("h_malloc", 1 << 62):
            c.fail("impossible request succeeded")
    return None


def assign(c):
    """new threads one after the other"""
    P = c.params
    hm, M = c.hm, c.M
    N = hm.narena
    c.symbolic_random(False)
    help = [c.call("h_malloc", 64) for _ in range(3)] if P.get("boot", 1) else None
    seq = []
    if help:
        seq.append(arena_of(c, help[0]))
    n = P["threads"]
    pos = c.pick("pos", min(n, P.get("pos", n)))
    ops = FIRST if help else ["malloc", "large", "fail"]
    op = ops[c.pick("first", len(ops))] if P.get("ops", 1) else "malloc"
    c.info.update(thread=pos, first=op)
    for t in range(n):
        c.newthread()
        p = None
        if t == pos:
            p = first(c, op, help)
        elif not help:
            help = [c.call("h_malloc", 64) for _ in range(3)]
            p = help[0]
        q = c.call("h_malloc", 24)
        a = arena_of(c, q)
        if p is not None and arena_of(c, p) != a:
            c.fail("the first two small blocks of a thread come from different arenas")
        for r in (1000, 64):
            if arena_of(c, c.call("h_malloc", r)) != a:
                c.fail("a thread changed its arena")
        seq.append(a)
        if len(seq) > N:
            if seq[-1] != seq[-1 - N]:
                c.fail("threads are not assigned to the %d arenas round-robin: %s" % (N, seq[-N - 2:]))
        elif a in seq[:-1]:
            c.fail("two of the first %d threads share arena %d while another arena is unused" % (N, a))
    c.ok_kernel()
    c.reach("end")


def counter(c):
    """every value of the counter behind the assignment (the one word outside the heap changed by the first call of a new thread)"""
    P = c.params
    hm, M = c.hm, c.M
    N = hm.narena
    c.symbolic_random(False)
    c.call("h_malloc", 40)
    w = set()
    vals = []
    lo, hi = 0x800000, M.prog.rw_end

    def watch(a, n, rw):
        if rw and not isinstance(a, E) and lo <= a < hi:
            w.add((a, n))
    for t in range(4):
        c.newthread()
        M.watch = watch
        c.call("h_malloc", 40)
        M.watch = None
        if len(w) != 1:
            raise Stop            # assigned in another way: the concrete sequences above apply
        a, n = next(iter(w))
        vals.append(M.load(a, n))
    # grows by one per thread beyond the number of arenas: every value can be reached
    if n not in (4, 8) or any(isinstance(v, E) for v in vals) or any(vals[i + 1] != vals[i] + 1 for i in range(3)) or N > 3 and not P.get("trust"):
        raise Stop
    v = c.var("threads", 32)
    r = c.pick("mod", N)
    c.assume(X.eq(32, X.urem(32, v, N), r))
    M.store(a, n, X.zext(v, 8 * n, 32) if n == 8 else v)
    c.newthread()
    p = c.call("h_malloc", 40)
    x = arena_of(c, p)
    for q in (c.call("h_calloc", 2, 50), c.call("h_realloc", 0, 700), c.call("h_aligned_alloc", 64, 100)):
        if arena_of(c, q) != x:
            c.fail("a thread changed its arena")
    wrap = X.eq(32, v, X.MASK[32])
    c.newthread()
    y = arena_of(c, c.call("h_malloc", 40))
    if N > 1 and y == x:
        c.prove(wrap if N & (N - 1) else 0, "two threads assigned one after the other share an arena")
    c.reach("end")


def far(c):
    """blocks of every one of many arenas, used, resized and released by the main thread and by a new one"""
    P = c.params
    hm = c.hm
    c.symbolic_random(False)
    cls = P["classes"][c.pick("class", len(P["classes"]))]
    lo, hi = class_range(hm, cls)
    ps = [c.call("h_malloc", hi)]
    for _ in range(hm.narena - 1):
        c.newthread()
        ps.append(c.call("h_malloc", hi))
    if len({arena_of(c, p) for p in ps}) != hm.narena:
        c.fail("not every arena is in use")
    who = c.pick("thread", 2)
    if who:
        c.thread(0)
    mine = arena_of(c, c.call("h_malloc", 40))
    for i, p in enumerate(ps):
        a = cls_arena_at(hm, p)[0]
        c.info.update(arena=a, block=p)
        if c.call("h_malloc_usable_size", p) != hi:
            c.fail("usable size of a block of arena %d" % a)
        if i % 2:
            q = c.call("h_realloc", p, hi + 100)
            if cls_arena_at(hm, q)[0] != mine:
                c.fail("resized block does not come from the calling thread's arena")
        else:
            c.call("h_free", p)
    c.ok_kernel()
    c.reach("end")


FNS = ["h_malloc", "h_calloc", "h_realloc", "h_posix_memalign", "h_aligned_alloc", "h_memalign", "h_valloc", "h_pvalloc", "_Znwm", "_Znam", "_ZnwmSt11align_val_t", "grow", "shrink", "after-failure", "after-free", "after-foreign-realloc"]


def keep_setup(c):
    """a thread for every arena (threads 1..), a block of every kind belonging to the main thread"""
    hm = c.hm
    c.symbolic_random(False)
    h = Heap(c)
    h.blocks = []
    c.params = dict(c.params)
    st = dict(own={}, blocks=[])
    a0 = arena_of(c, c.call("h_malloc", 40))
    st["own"][a0] = 0
    for t in range(1, min(hm.narena, 7)):
        c.thread(t)
        a = arena_of(c, c.call("h_malloc", 40))
        st["own"].setdefault(a, t)
    c.thread(0)
    st["a0"] = a0
    return st


def keep(c):
    """all later small allocations of a thread"""
    P = c.params
    hm, M = c.hm, c.M
    st = P["st"]
    own = sorted(st["own"].items())
    a, t = own[c.pick("arena", len(own))]
    o = own[(own.index((a, t)) + 1) % len(own)]
    fns = P["fns"]
    fn = fns[c.pick("fn", len(fns))]
    cls = P["classes"][c.pick("class", len(P["classes"]))]
    if fn in ("grow", "shrink") and cls == 0:
        raise Stop
    lo, hi = class_range(hm, cls)
    c.info.update(arena=a, thread=t, fn=fn, cls=cls)
    h = Heap(c, {"place", "overlap"})
    h.arena = o[0]
    c.thread(o[1])
    f = h.malloc(48)
    f2 = h.malloc(48)
    c.thread(t)
    h.arena = a
    s = c.size("size", lo, hi)
    if fn in ("h_malloc", "_Znwm", "_Znam"):
        h.malloc(s, cls, fn=fn)
    elif fn == "h_calloc":
        h.malloc(s, cls, fn=fn, args=(1, s))
    elif fn == "h_realloc":
        h.malloc(s, cls, fn=fn, args=(0, s))
    elif fn in ("h_posix_memalign", "h_aligned_alloc", "h_memalign", "_ZnwmSt11align_val_t", "h_valloc", "h_pvalloc"):
        al = PAGE if fn in ("h_valloc", "h_pvalloc") else (16, 64, 1024)[c.pick("al", 3)]
        s = hi
        if fn == "h_pvalloc":
            s = up(max(hi, 1))
        k = fam.aligned_class(hm, al, s)
        if s + hm.canary > hm.maxslab or k is None:
            raise Stop
        if fn == "h_posix_memalign":
            if c.call(fn, USER_BASE, al, s):
                c.fail("allocation failed although memory is available")
            p = c.rd(USER_BASE, 8)
        else:
            p = c.call(fn, *((s,) if fn in ("h_valloc", "h_pvalloc") else (s, al) if fn[0] == "_" else (al, s)))
        h.got(p, s, k, align=al)
    elif fn == "grow":
        b = h.malloc(1, doc_class(hm, 1))
        if cls > b.cls:
            h.realloc(b, s, cls)
    elif fn == "shrink":
        b = h.malloc(hm.maxslab - hm.canary)
        if cls < b.cls:
            h.realloc(b, s, cls)
    elif fn == "after-failure":
        for bad in (("h_malloc", 1 << 62), ("h_calloc", 1 << 33, 1 << 33), ("h_aligned_alloc", 24, 8), ("h_realloc", 0, X.MASK[64])):
            if c.call(*bad):
                c.fail("impossible request succeeded")
        h.malloc(s, cls)
    elif fn == "after-free":
        h.free(f)
        h.malloc(s, cls)
    else:
        h.realloc(f, 300)            # moves to the caller's arena
        h.free(f2)
        h.malloc(s, cls)
    c.ok_kernel()
    c.reach(fn)


def ends(c):
    """blocks at both ends of a full class region of an arena, at the extreme offsets of the region, released by another thread"""
    P = c.params
    hm, M = c.hm, c.M
    cls = P["cls"]
    draws(c, P["word"])
    hm.find_layout()
    for t in range(hm.narena):
        c.thread(t)
        c.call("h_malloc", 40)
    mine = {}
    for t in range(hm.narena):
        c.thread(t)
        q = c.call("h_malloc", 40)
        mine[(M.conc(q) - hm.slab_start) // (hm.real * hm.nclass)] = t
    if sorted(mine) != list(range(hm.narena)):
        c.fail("not every arena is in use")
    ar = P["arena"] % hm.narena
    c.thread(mine[ar])
    lo, hi = class_range(hm, cls)
    ps = []
    for i in range(hm.crs // hm.slab_size(cls) * hm.slots[cls] + 1):
        p = M.conc(c.call("h_malloc", hi))
        if p == 0:
            break
        if not 0 <= p - hm.slab_start - (ar * hm.nclass + cls) * hm.real < hm.real:
            c.fail("a thread's block outside its arena")
        ps.append(p)
    if len(ps) < 2:
        c.fail("allocation failed although memory is available")
    ps.sort()
    i = (0, len(ps) // 2, len(ps) - 1)[c.pick("block", 3)]
    p = ps[i]
    c.thread(mine[(ar + c.pick("caller", 2)) % hm.narena])
    how = ("h_free", "h_free_sized", "h_realloc")[c.pick("how", 3)]
    c.info.update(arena=ar, block=p, how=how)
    if how == "h_free":
        c.call(how, p)
    elif how == "h_free_sized":
        c.call(how, p, hi)
    else:
        c.call(how, p, 300000)
    c.thread(mine[ar])
    # the region was full: only the released slot is left, up to the cached empty slabs
    for _ in range(hm.slots[cls] + 1):
        q = M.conc(c.call("h_malloc", hi))
        if q == p:
            break
        if q == 0 or q in ps:
            c.fail("the arena a block came from never uses its memory again after another thread released it")
    else:
        c.fail("the arena a block came from never uses its memory again after another thread released it")
    c.ok_kernel()
    c.reach("end")


def owner_setup(c):
    st = keep_setup(c)
    hm = c.hm
    cls = c.params["cls"]
    st["full"] = {}
    req = class_range(hm, cls)[0]
    for a, t in sorted(st["own"].items()):
        c.thread(t)
        ps = []
        # fill slabs until one starts afresh
        for i in range(3 * hm.slots[cls] + 3):
            ps.append(c.call("h_malloc", req))
        base = hm.slab_start + (a * hm.nclass + cls) * hm.real
        if any(not 0 <= p - base < hm.real for p in ps):
            c.fail("a thread's block outside its arena")
        by = {}
        for p in ps:
            by.setdefault(p // 4096 if hm.slab_size(cls) == 4096 else p, []).append(p)
        st["full"][a] = ps
    c.thread(0)
    return st


def owner(c):
    """release from any thread gives the memory back to the arena it came from, and to no other"""
    P = c.params
    hm, M = c.hm, c.M
    st = P["st"]
    cls = P["cls"]
    own = sorted(st["own"].items())
    a, t = own[c.pick("owner", len(own))]
    b, u = own[c.pick("caller", len(own))]
    how = P["how"][c.pick("how", len(P["how"]))]
    ps = st["full"][a]
    i = c.pick("block", 3)
    p = (ps[len(ps) // 2], ps[1], ps[-2])[i]
    if cls == 0 and how == "sized":
        raise Stop
    c.info.update(owner=a, caller=b, how=how, block=p)
    lo, hi = class_range(hm, cls)
    base = lambda a, k: hm.slab_start + (a * hm.nclass + k) * hm.real
    c.thread(u)
    if how == "free":
        c.call("h_free", p)
    elif how == "sized":
        c.call("h_free_sized", p, hi)
    elif how == "delete":
        c.call("_ZdlPv", p)
    elif how == "inplace":
        q = c.call("h_realloc", p, hi)
        if q != p:
            c.fail("a resize within the size class moved the block")
        c.call("h_free", q)
    elif how == "zero":
        q = c.call("h_realloc", p, 0)
        if not 0 <= q - base(b, 0) < hm.real:
            c.fail("resized block does not come from the calling thread's arena")
    elif how == "large":
        q = c.call("h_realloc", p, 300000)
    else:
        k = cls + 2 if cls + 2 < hm.nclass else cls - 2
        q = c.call("h_realloc", p, class_range(hm, k)[1])
        if not 0 <= q - base(b, k) < hm.real:
            c.fail("resized block does not come from the calling thread's arena")
    # every thread allocates: the memory shows up again in its owner's arena only
    for x, y in own:
        if x == a:
            continue
        c.thread(y)
        for _ in range(2):
            q = c.call("h_malloc", hi)
            if not 0 <= q - base(x, cls) < hm.real:
                c.fail("a thread's block outside its arena after a block of another arena was released")
    c.thread(t)
    seen = False
    for _ in range(2 * hm.slots[cls] + 2):
        q = c.call("h_malloc", hi)
        if not 0 <= q - base(a, cls) < hm.real:
            c.fail("a thread's block outside its arena after another thread released one of its blocks")
        if q == p:
            seen = True
            break
    if not seen:
        c.fail("the arena a block came from never uses its memory again after another thread released it")
    if c.attempt("h_free", q)[0] != "ret":
        c.fail("a reused block cannot be released")
    c.ok_kernel()
    c.reach(how)


def largeback(c):
    """large to small by another thread: the new block is the caller's"""
    P = c.params
    hm = c.hm
    own = sorted(P["st"]["own"].items())
    a, t = own[c.pick("owner", len(own))]
    b, u = own[c.pick("caller", len(own))]
    c.thread(t)
    p = c.call("h_malloc", 300000)
    c.thread(u)
    cls = P["classes"][c.pick("class", len(P["classes"]))]
    s = c.size("size", *class_range(hm, cls))
    h = Heap(c, {"place"})
    h.arena = b
    h.got(c.call("h_realloc", p, s), s, cls, nozero=True)
    c.reach("end")


def race(c):
    """first calls at once"""
    P = c.params
    hm, M = c.hm, c.M
    N = hm.narena
    c.symbolic_random(False)
    n = P["n"]
    out = {}
    if P.get("boot", 1):
        out["main"] = arena_of(c, c.call("h_malloc", 40))

    def body(t):
        def f():
            p = M.conc(c.call("h_malloc", 40))
            q = M.conc(c.call("h_malloc", 300))
            out[t] = (p, q)
        return f
    lo, hi = 0x800000, M.prog.rw_end
    S = Sched(c, [body(t) for t in range(n)], tids=[t + 1 for t in range(n)], preempt=P["preempt"])
    busy = [0]

    def watch(a, k, rw):
        if M.sched is None or M.atomic or isinstance(a, E) or not lo <= a < hi or busy[0]:
            return
        if words is not None and a not in words:
            return
        S.point(M)
    # words outside the heap which the first call of a thread changes
    words = None
    if P.get("boot", 1):
        w = set()

        def see(a, k, rw):
            if rw and not isinstance(a, E) and lo <= a < hi:
                w.add(a)
        c.newthread()
        M.watch = see
        c.call("h_malloc", 40)
        M.watch = None
        out["extra"] = arena_of(c, c.call("h_malloc", 40))
        words = w
        c.thread(0)
        M.watch = watch
    try:
        S.run()
    finally:
        M.watch = None
    c.info["order"] = S.log
    arenas = [v for k, v in out.items() if isinstance(v, int)]
    for t in range(n):
        p, q = out[t]
        a = arena_of(c, p)
        if arena_of(c, q) != a:
            c.fail("a thread changed its arena")
        arenas.append(a)
    cnt = [arenas.count(a) for a in range(N)]
    if max(cnt) - min(cnt) > 1:
        c.fail("threads whose first calls overlap are not spread over the arenas evenly: %s" % cnt)
    c.reach("end")


def tasks(tier, seed):
    th = tier == "thorough"
    T = []
    for cf, n in ((N1, 3), (N2, 5), (N3, 7), (D, 9), (N7, 15)):
        T.append(Task("assign," + cf.name, cf, assign, dict(threads=n), budget=60, reach=["end"]))
    T.append(Task("assign,256-arenas", N256, assign, dict(threads=259, pos=1, ops=0), budget=60, reach=["end"]))
    T.append(Task("assign,3-arenas,300", N3, assign, dict(threads=300, pos=1, ops=0), budget=60, reach=["end"]))
    T.append(Task("assign,7-arenas,300", N7, assign, dict(threads=300, pos=1, ops=0), budget=60, reach=["end"]))
    T.append(Task("far,256-arenas", N256, far, dict(classes=[1, 9, 20, 30] if not th else range(1, 30)), budget=60, reach=["end"]))
    T.append(Task("far,7-arenas", N7, far, dict(classes=[1, 9, 20, 30, 40]), budget=60, reach=["end"]))
    T.append(Task("assign,no-boot", Cfg("default", SELF_INIT=False, name="default,no-self-init"), assign, dict(threads=5, boot=0), budget=60, boot=False, reach=["end"]))
    T.append(Task("assign,light", L, assign, dict(threads=5), budget=60, reach=["end"]))
    for n in (1, 2, 3, 4, 7, 256) + ((5, 6, 31, 100, 255) if th else ()):
        o = dict(N_ARENA=n, EXTENDED_SIZE_CLASSES=n < 8)
        if n > 6:
            o["CLASS_REGION_SIZE"] = CRS
        cf = Cfg("default", native=False, name="default,%d-arenas,model" % n, **o)
        T.append(Task("counter,%d" % n, cf, counter, dict(trust=1), budget=60, reach=["end"] if n > 1 else []))
    for j in range(4 if not th else 1):
        T.append(Task("keep,%d" % j, D, keep, dict(fns=[f for f in FNS if f[0] != "_"], classes=list(range(j, 49, 4)) if not th else list(range(49))), setup=keep_setup, budget=40 if not th else 400, reach=["h_malloc", "grow", "after-failure"]))
    CX = Cfg("default", cxx=True, name="default,c++")
    T.append(Task("keep,c++", CX, keep, dict(fns=[f for f in FNS if f[0] == "_"], classes=list(range(0, 49, 6 if not th else 1))), setup=keep_setup, budget=60, reach=["_Znwm"]))
    T.append(Task("keep,3-arenas", N3, keep, dict(fns=["h_malloc", "grow", "after-foreign-realloc"], classes=[0, 1, 2, 7, 20, 30, 48]), setup=keep_setup, budget=30, reach=["h_malloc"]))
    DQ = Cfg("default", name="default,no-slab-quarantine,first-slot", **DET)
    DQ3 = Cfg("default", N_ARENA=3, name="3-arenas,no-slab-quarantine,first-slot", **DET)
    DQX = Cfg("default", cxx=True, name="no-slab-quarantine,first-slot,c++", **DET)
    for k in ([0, 1, 4, 9, 20, 26, 33, 40, 48] if not th else range(49)):
        T.append(Task("owner,%d" % k, DQ, owner, dict(cls=k, how=["free", "sized", "inplace", "zero", "large", "move"] if k else ["free", "inplace", "large", "move"]), setup=owner_setup, budget=60, reach=["free", "move", "large"]))
    T.append(Task("owner,3-arenas", DQ3, owner, dict(cls=6, how=["free", "move"]), setup=owner_setup, budget=30, reach=["free"]))
    T.append(Task("owner,c++", DQX, owner, dict(cls=6, how=["delete"]), setup=owner_setup, budget=30, reach=["delete"]))
    T.append(Task("large-to-small", D, largeback, dict(classes=[0, 1, 8, 30, 48]), setup=keep_setup, budget=30, reach=["end"]))
    pr = 3 if th else 2
    for cf, n in ((2, 2), (4, 2), (4, 3), (3, 3)):
        T.append(Task("race,%d-arenas,%d-threads" % (cf, n), Cfg("default", N_ARENA=cf, native=False, name="default,%d-arenas,model" % cf), race, dict(n=n, preempt=pr), budget=40 if not th else 300, reach=["end"]))
    SM = Cfg("default", CLASS_REGION_SIZE=1 << 20, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=0, name="default,class-region-1M,no-quarantine", **Q0, **NOZ)
    SM3 = Cfg("default", N_ARENA=3, CLASS_REGION_SIZE=1 << 20, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=0, name="default,class-region-1M,no-quarantine,3-arenas", **Q0, **NOZ)
    for cf, ars in ((SM, (0, 3)), (SM3, (1, 2))):
        for ar in ars:
            for k in (48, 44) if not th else (48, 44, 36, 30, 12, 8):
                for nm, w in (("smallest", 1), ("largest", X.MASK[64])):
                    T.append(Task("ends,%s/%d/%d/%s" % (cf.name, ar, k, nm), cf, ends, dict(arena=ar, cls=k, word=w, enum=64), boot=False, budget=40, reach=["end"]))
    T.append(Task("race,first-use", Cfg("default", native=False, SELF_INIT=False, name="default,no-self-init,model"), race, dict(n=2, preempt=pr, boot=0), boot=False, budget=40, reach=["end"]))
    return T
