from hmsym.explore import Stop
from hmsym.runner import Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from hmsym.machine import USER_BASE, ENOMEM, Hang, Segv, TLS_BASE
from hmsym.conc import Sched
from hmsym import fam, expr as X
from hmsym.expr import E

PROP = Prop("C19", bounds=["locksets: every load and store to the allocator's mutable state and globals and every memory system call on slab pages, on every path of histories of up to 3 (quick) or 5 (thorough) operations of two threads over all public operations, symbolic sizes, arbitrary random draws, refused system calls",
                           "interleavings: two threads with one or two operations each, all schedules at lock, unlock and system call granularity with up to 2 (quick) or 3 (thorough) preemptions; three threads with 1 preemption (thorough 2)",
                           "first use: two or three threads at once, same schedules; publication of the initialised state through acquire/release or locks"],
            assumptions=["threads interleave at locks, unlocks and system calls (justified by the lockset result: in between they touch only state they own exclusively)", "sequential consistency apart from the happens-before check of first use"])

LS = {}          # (address, size) -> [common lockset, written, example]
EDGES = {}       # lock order


class Watch:
    """records every access to shared mutable state with the locks the running thread holds"""

    def __init__(self, c):
        self.c, M, hm = c, c.M, c.hm
        self.M = M
        self.data = (0x800000, M.prog.rw_end)
        self.state = hm.state_map if hm.state is not None else None
        self.slab = (hm.slab_start, hm.slab_end)
        self.held = frozenset()
        self.loose = []      # slab accesses without any lock: (position, a, n)
        self.pos = 0
        self.lastunlock = {}
        self.fn = ""
        M.watch = self
        M.ghost["on_lock"] = self.lock
        M.ghost["on_unlock"] = self.unlock
        M.ghost["fault"] = self.sys
        self.fault = None

    def lock(self, M, m):
        for o in self.held:
            EDGES.setdefault((o, m), self.fn)
        self.held = frozenset(k for k, t in M.locks.items() if t == M.tid)

    def unlock(self, M, m):
        self.held = frozenset(k for k, t in M.locks.items() if t == M.tid)
        self.pos += 1
        self.lastunlock[m] = self.pos

    def sys(self, M, name, args):
        a, n = args[0], args[1]
        if isinstance(a, int) and isinstance(n, int) and self.slab[0] <= a < self.slab[1] and n < 1 << 30:
            for p in range(a >> 12, (a + n + 4095) >> 12):
                self.rec(("page", p), 1)
        elif isinstance(a, int) and isinstance(n, int) and self.state and self.state[0] <= a < self.state[1]:
            # the kernel changes a part of the state
            for p in range(a >> 12, (a + n + 4095) >> 12):
                self.rec(("page", p), 1)
        f = self.fault
        return f(M, name, args) if f else 0

    def rec(self, k, rw):
        e = LS.get(k)
        if e is None:
            LS[k] = [self.held, rw, self.fn if not self.held else None]
        else:
            if not self.held and e[2] is None:
                e[2] = self.fn
            e[0] = e[0] & self.held
            e[1] |= rw

    def __call__(self, a, n, rw):
        if isinstance(a, E) or isinstance(n, E):
            lo, hi = X.lo_(a), X.hi_(a)
            if self.state and lo >= self.state[0] and hi < self.state[1]:
                if not self.held:
                    self.rec(("page", 0), 1)
            return
        if self.state and self.state[0] <= a < self.state[1] or self.data[0] <= a < self.data[1]:
            if self.M.atomic:
                return
            self.rec((a, n), rw)
        elif self.slab[0] <= a < self.slab[1] and not self.held:
            self.loose.append((self.pos, a, n))


def post(r, hm):
    """locks common to every access of a written location; lock order"""
    by = {}
    for (a, n), (ls, rw, fn) in LS.items():
        if a == "page":
            if rw and not ls:
                yield "%s changes pages of a slab or of the allocator state without the lock other operations hold for it" % (fn or "an operation")
                return
            continue
        for b in range(a, a + n):
            e = by.get(b)
            if e is None:
                by[b] = [ls, rw, fn]
            else:
                e[0] = e[0] & ls
                e[1] |= rw
                e[2] = e[2] or fn
    for b, (ls, rw, fn) in by.items():
        if rw and not ls:
            yield "shared mutable state is accessed without the one lock protecting it (%s)" % (fn or "different locks")
            return
    g = {}
    for a, b in EDGES:
        g.setdefault(a, set()).add(b)
    seen, stack = {}, []

    def cyc(n):
        seen[n] = 1
        for k in g.get(n, ()):
            if seen.get(k) == 1 or k not in seen and cyc(k):
                return True
        seen[n] = 2
        return False
    for n in list(g):
        if n not in seen and cyc(n):
            yield "locks are acquired in inconsistent order"
            return


def last_of_slabs(c):
    """slabs with one live block each: every free empties one (and releases it, once enough are cached)"""
    P = c.params
    cls = P["last"]
    hm = c.hm
    n = hm.slots[cls]
    r = []
    bl = fill(c, cls, n * P.get("nslabs", 4))
    for i in range(P.get("nslabs", 4)):
        g = bl[i * n:(i + 1) * n]
        for b in g[1:]:
            c.call("h_free", b.p)
        r.append((g[0].p, g[0].req, g[0].usable, ("m", cls)))
    return r


def locks(c):
    P = c.params
    hm, M = c.hm, c.M
    if P.get("sym", 1):
        fresh(c, *P["classes"], region=True)
    h = Heap(c)
    h.blocks = list(P.get("st", ()))
    w = Watch(c)
    log = c.info["ops"] = []
    fl = P.get("faults")
    for i in range(P["steps"]):
        ops = [o for o in P["menu"] if (o[0] not in ("f", "f1", "r", "u", "o", "fs") or h.blocks) and (o[0] != "fs" or h.blocks[-1][3][0] != "a")]
        o = ops[c.pick("op", len(ops))]
        t = c.pick("t", P.get("threads", 2))
        c.thread(t)
        log.append((t, o))
        w.fn = o[0] if o[0] not in NAMES else NAMES[o[0]]
        w.pos, w.loose, w.lastunlock = 0, [], {}
        if fl:
            k = c.pick("k", fl)
            n = [0]

            def f(M, name, a):
                n[0] += 1
                return ENOMEM if n[0] == k else 0
            w.fault = f
        own = []
        k = o[0]
        gone = None
        if k == "m":
            p = c.call("h_malloc", fam.sym_req(c, o[1]))
        elif k == "c":
            p = c.call("h_calloc", fam.sym_req(c, o[1]), 1)
        elif k == "a":
            p = c.call("h_aligned_alloc", o[1], o[2])
        elif k in ("f", "f1", "fs"):
            b = h.blocks.pop(0 if k == "f" else -1)
            gone = b
            if k == "fs":
                c.call("h_free_sized", b[0], b[1])
            else:
                c.call("h_free", b[0])
            p = 0
        elif k == "r":
            b = h.blocks.pop()
            req = fam.sym_req(c, o[1])
            p = c.call("h_realloc", b[0], req)
            if c.branch(X.eq(64, p, 0)):
                h.blocks.append(b)
                own.append(b)
                p = 0
            elif not c.branch(X.eq(64, p, b[0])):
                gone = b
        elif k == "u":
            c.call("h_malloc_usable_size", h.blocks[0][0])
            own.append(h.blocks[0])
            p = 0
        elif k == "o":
            c.call("h_malloc_object_size", h.blocks[0][0])
            c.call("h_malloc_object_size_fast", h.blocks[0][0])
            p = 0
        elif k == "t":
            c.call("h_malloc_trim", 0)
            p = 0
        elif k == "i":
            M.fn("h_mallinfo2")(M, USER_BASE)
            M.fn("h_mallinfo")(M, USER_BASE + 0x200)
            p = 0
        elif k == "ia":
            M.fn("h_mallinfo")(M, USER_BASE)
            for a in range(hm.narena + 1):
                M.fn("h_mallinfo_arena_info")(M, USER_BASE, a)
                M.fn("h_mallinfo_bin_info")(M, USER_BASE, a, 36)
            p = 0
        elif k == "d":
            c.call("h_malloc_disable")
            c.call("h_malloc_enable")
            p = 0
        elif k == "fk":
            c.call("@prepare")
            c.call("@parent")
            p = 0
        elif k == "mi":
            c.call("h_malloc_info", 0, USER_BASE)
            p = 0
        w.fault = None
        if not (isinstance(p, int) and p == 0) and not c.branch(X.eq(64, p, 0)):
            s = fam.sym_req(c, o[1]) if k != "a" else o[2]
            if k == "a":
                n = o[2]
            else:
                n = class_usable(hm, o[1]) if not isinstance(o[1], tuple) else s
            b = (p, s, n if isinstance(n, int) else X.hi_(n), o)
            own.append(b)
            h.blocks.append(b)
        if M.locks:
            c.fail("a lock is still held when the call returns")
        if gone is not None:
            own.append(gone)
        for pos, a, n in w.loose:
            ok = False
            for b in own:
                if isinstance(b[0], int) and b[0] <= a and a + n <= b[0] + b[2] + 16:
                    ok = True
                    if b is gone and w.lastunlock and pos >= max(w.lastunlock.values()) and not isinstance(b[3][1], tuple):
                        ok = False
            if not ok and not any(isinstance(b[0], E) for b in own):
                c.fail("%s touches slab memory it does not own without holding a lock" % w.fn)
    c.ok_kernel()
    if any(e[0] == "bad_unlock" for e in M.events):
        c.fail("a lock that is not held is released")
    c.reach("end")


NAMES = dict(m="malloc", c="calloc", a="aligned_alloc", f="free", f1="free", fs="free_sized", r="realloc", u="malloc_usable_size", o="malloc_object_size", t="malloc_trim", i="mallinfo", mi="malloc_info", ia="mallinfo_arena_info or mallinfo_bin_info", d="malloc_disable", fk="the fork handlers")


# ------------------------------------------------------------------ interleavings
def reuse(M, n):
    """the kernel places a new mapping at the range released last, if it fits"""
    n = (n + 4095) & ~4095
    for e in reversed(M.events[-60:]):
        if e[0] == "munmap" and e[3] == 0 and isinstance(e[1], int):
            ln = (e[2] + 4095) & ~4095
            if ln >= n and M.covered_none(e[1], e[1] + n):
                return e[1]
    b = M.mmap_next
    M.mmap_next = b + n + 0x10000
    return b


def lowest(M, n):
    """the kernel places a new mapping at the low end of the hole that ranges released last form, if it fits"""
    n = (n + 4095) & ~4095
    rel = []
    for e in M.events[-80:]:
        if e[0] == "munmap" and e[3] == 0 and isinstance(e[1], int):
            rel.append((e[1], e[1] + ((e[2] + 4095) & ~4095)))
        elif e[0] == "mremap" and e[-1] == 0 and e[-2] != e[1] and isinstance(e[1], int):
            rel.append((e[1], e[1] + ((e[2] + 4095) & ~4095)))
    rel = [x for x in rel if M.covered_none(*x)]
    if rel:
        a, b = rel[-1]
        more = True
        while more:
            more = False
            for x, y in rel:
                if x <= b and a <= y and (x < a or y > b):
                    a, b = min(a, x), max(b, y)
                    more = True
        if b - a >= n:
            return a
    b = M.mmap_next
    M.mmap_next = b + n + 0x10000
    return b


def conc_setup(c):
    P = c.params
    h = Heap(c)
    c.call("h_malloc_trim", 0)
    for r in P["blocks"]:
        if isinstance(r, tuple):
            k, req, base = r
            g = c.M.ghost
            g["mmap_policy"] = lambda M, n: base
            h.mark(h.malloc(req))
            g.pop("mmap_policy")
        else:
            h.mark(h.malloc(r))
    return h


def body(c, h, seq, res):
    """one thread: its operations on its own blocks; allocated blocks are marked at once"""
    def run():
        M, hm = c.M, c.hm
        last = None
        mine = []
        for o in seq:
            k = o[0]
            if k == "m":
                p = c.call("h_malloc", o[1])
                if p == 0:
                    c.fail("allocation returned NULL although memory is available")
                c.wr(p, 0xabcd0000 + len(res) * 16 + M.tid, 8)
                last = [p, o[1], 0xabcd0000 + len(res) * 16 + M.tid]
                res.append(last)
                mine.append(last)
            elif k in ("fl", "ff"):
                if k == "ff":
                    last = mine[0]
                if c.rd(last[0], 8) != last[2]:
                    c.fail("contents of a live block changed")
                c.call("h_free", last[0])
                res.remove(last)
            elif k in ("f", "fs"):
                b = o[1]
                h.verify(b)
                if k == "f":
                    c.call("h_free", b.p)
                else:
                    c.call("h_free_sized", b.p, b.req)
                b.live = False
            elif k == "r":
                b = o[1]
                h.verify(b)
                q = c.call("h_realloc", b.p, o[2])
                if q == 0:
                    c.fail("realloc returned NULL although memory is available")
                ncls = doc_class(hm, o[2])
                if q != b.p:
                    b.live = False
                keep = min(b.usable, o[2])
                nb = Block(p=q, req=o[2], cls=ncls, usable=class_usable(hm, ncls) if ncls is not None else large_usable(hm, o[2]), mark=[(of, v) for of, v in b.mark if of + 8 <= keep])
                h.verify(nb, "realloc lost the contents")
                b.live = False
                res.append([q, o[2], None, nb])
            elif k == "u":
                u = c.call("h_malloc_usable_size", o[1].p)
                if u != o[1].usable:
                    c.fail("wrong usable size")
                if c.call("h_malloc_object_size", o[1].p) != o[1].usable:
                    c.fail("wrong object size")
            elif k == "t":
                c.call("h_malloc_trim", 0)
            elif k == "i":
                c.call("h_malloc_info", 0, USER_BASE)
    return run


def conc(c):
    P = c.params
    hm, M = c.hm, c.M
    h = Heap(c, ("overlap", "access"))
    h0 = P["st"]
    h.blocks = [fam.copyb(b) for b in h0.blocks]
    M.ghost["mmap_policy"] = lowest if P.get("low") else reuse
    nt = P.get("threads", 2)
    seqs, names = [], []
    for t in range(nt):
        menu = P["menu"][min(t, len(P["menu"]) - 1)]
        o = menu[c.pick("op", len(menu))]
        names.append(str(o))
        seqs.append([tuple(h.blocks[x[1]] if i == 1 and x[0] in ("f", "fs", "r", "u") else y for i, y in enumerate(x)) for x in o])
    c.info["ops"] = names
    res = [[] for _ in range(nt)]
    s = Sched(c, [body(c, h, q, r) for q, r in zip(seqs, res)], preempt=P.get("preempt", 2))
    c.info["schedule"] = s.log
    s.run()
    if M.locks:
        c.fail("a lock is still held when the calls have returned")
    M.ghost.pop("mmap_policy")
    freed = [b for b in h.blocks if b.live is False]
    h.blocks = [b for b in h.blocks if b.live is not False]
    for r in res:
        for x in r:
            b = h.got(x[0], x[1], nozero=True)
            b.mark = x[3].mark if len(x) > 3 else [(0, x[2])]
    h.verify_all()
    # afterwards: everything still works
    for req in P["later"]:
        b = h.malloc(req)
        h.mark(b)
    h.verify_all()
    for b in h.blocks[:]:
        u = c.call("h_malloc_usable_size", b.p)
        c.prove(X.eq(64, u, b.usable), "wrong usable size")
        h.verify(b)
        h.free(b)
    c.call("h_malloc_trim", 0)
    c.ok_kernel()
    c.reach("end")


# ------------------------------------------------------------------ first use
def first(c):
    P = c.params
    hm, M = c.hm, c.M
    menu = P["menu"]
    nt = P.get("threads", 2)
    res = [None] * nt
    log = []

    def mk(t, o):
        def run():
            if o == "m":
                p = c.call("h_malloc", 100)
                c.wr(p, 0x1111 * (t + 1), 8)
                res[t] = p
            elif o == "c":
                p = c.call("h_calloc", 3, 50)
                if c.rd(p, 8):
                    c.fail("calloc block not zero")
                c.wr(p, 0x1111 * (t + 1), 8)
                res[t] = p
            elif o == "L":
                p = c.call("h_malloc", 300000)
                c.wr(p, 0x1111 * (t + 1), 8)
                res[t] = p
            elif o == "mf":
                p = c.call("h_malloc", 100)
                c.call("h_free", p)
            elif o == "f":
                c.call("h_free", 0)
            elif o == "t":
                c.call("h_malloc_trim", 0)
            elif o == "o":
                r = c.call("h_malloc_object_size", USER_BASE + 64)
                if r != NEG1:
                    c.fail("object size of unmanaged memory is not the maximum")
            elif o == "i":
                c.call("h_malloc_info", 0, USER_BASE)
        return run
    ops = [menu[c.pick("op", len(menu))] for _ in range(nt)]
    c.info["ops"] = ops
    s = Sched(c, [mk(t, o) for t, o in enumerate(ops)], preempt=P.get("preempt", 2))
    c.info["schedule"] = s.log
    s.run()
    if M.locks:
        c.fail("a lock is still held when the calls have returned")
    n = sum(e[0] == "pthread_atfork" for e in M.events)
    alloc = any(o in ("m", "c", "L", "mf") for o in ops)
    big = sum(e[0] == "mmap" and e[-1] == 0 and isinstance(e[2], int) and e[2] >= hm.slab_end - hm.slab_start for e in M.events)
    if n > 1 or big > 1:
        c.fail("the allocator was initialised more than once")
    if alloc and (n != 1 or big != 1):
        c.fail("the allocator was not initialised")
    live = [(t, p) for t, p in enumerate(res) if p is not None]
    if len({p for t, p in live}) != len(live):
        c.fail("the same block was handed out twice")
    reg = [e for e in M.events if e[0] == "mmap" and e[-1] == 0 and isinstance(e[2], int) and e[2] >= hm.slab_end - hm.slab_start]
    for t, p in live:
        if c.rd(p, 8) != 0x1111 * (t + 1):
            c.fail("contents of a live block changed")
        if ops[t] != "L" and not reg[0][5] <= p < reg[0][5] + reg[0][2]:
            c.fail("block outside the slab region")
        c.call("h_malloc_usable_size", p)
        c.call("h_free", p)
    c.ok_kernel()
    c.reach("end")


def publish(c):
    """a second thread sees the initialised state only after synchronising with the initialisation"""
    P = c.params
    hm, M = c.hm, c.M
    c.symbolic_random(False)
    data = (0x800000, M.prog.rw_end)
    maps = lambda a: any(e[0] == "mmap" and e[-1] == 0 and isinstance(e[5], int) and e[5] <= a < e[5] + e[2] for e in M.events)
    seq = [0]
    last = {}        # byte -> index of the last store of the first thread
    rel = {}         # byte -> index of its release store
    unl = {}

    def w0(a, n, rw):
        if not rw or isinstance(a, E):
            return
        seq[0] += 1
        if not (data[0] <= a < data[1] or a >= 0x100000000000 and a < 0x600000000000):
            return
        if M.atomic:
            for b in range(a, a + n):
                rel[b] = seq[0]
            return
        for b in range(a, a + n):
            last[b] = seq[0]
            if M.aord in (5, 6, 7):
                rel[b] = seq[0]
            else:
                rel.pop(b, None)
    M.watch = w0

    def u0(M, m):
        seq[0] += 1
        unl[m] = seq[0]
    M.ghost["on_unlock"] = u0
    p = c.call("h_malloc", 100)
    big = c.call("h_malloc", 300000)
    if P["keep"] == 0:
        pass
    M.watch = None
    c.thread(1)
    hb = [-1]
    racy = []
    op = P["ops"][c.pick("op", len(P["ops"]))]
    c.info["op"] = op

    def w1(a, n, rw):
        if isinstance(a, E):
            return
        if M.atomic or M.aord in (4, 6, 7):
            if a in rel:
                hb[0] = max(hb[0], rel[a])
            return
        i = max(last.get(b, -1) for b in range(a, min(a + n, a + 64)))
        if i > hb[0] and M.aord == 0:
            racy.append(a)

    def l1(M, m):
        if m in unl:
            hb[0] = max(hb[0], unl[m])
    M.ghost["on_unlock"] = None
    M.ghost["on_lock"] = l1
    M.watch = w1
    if op == "m":
        c.call("h_malloc", 100)
    elif op == "mL":
        c.call("h_malloc", 400000)
    elif op == "o":
        c.call("h_malloc_object_size", USER_BASE + 16)
        c.call("h_malloc_object_size_fast", USER_BASE + 16)
    elif op == "t":
        c.call("h_malloc_trim", 0)
    elif op == "i":
        c.call("h_malloc_info", 0, USER_BASE)
    elif op == "r0":
        c.call("h_realloc", 0, 60)
    elif op == "al":
        c.call("h_aligned_alloc", 65536, 60)
    M.watch = None
    if racy:
        c.fail("%s reads state of the initialisation without having synchronised with it" % op)
    c.reach("end")


def tasks(tier, seed):
    T = tier == "thorough"
    B = 90 if T else 9
    r = []
    K = dict(EXTENDED_SIZE_CLASSES=False, GUARD_SIZE_DIVISOR=100000)
    Z = dict(ZERO_ON_FREE=False, WRITE_AFTER_FREE_CHECK=False)
    A1 = Cfg("default", name="no-ext,guard-1-page,no-quarantine,no-zeroing,1-arena", SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, REGION_QUARANTINE_RANDOM_LENGTH=0, REGION_QUARANTINE_QUEUE_LENGTH=0, N_ARENA=1, **K, **Z)
    A2 = Cfg("default", name="no-ext,guard-1-page,region-quarantine-1-1,no-slab-quarantine,2-arenas,stats", SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, REGION_QUARANTINE_RANDOM_LENGTH=1, REGION_QUARANTINE_QUEUE_LENGTH=1, N_ARENA=2, STATS=True, **K)
    A3 = Cfg("default", name="guard-1-page,slab-quarantine-1-1,region-quarantine-1-0,no-zeroing", N_ARENA=2, GUARD_SIZE_DIVISOR=100000, REGION_QUARANTINE_RANDOM_LENGTH=1, REGION_QUARANTINE_QUEUE_LENGTH=0, **Z)
    A4 = Cfg("default", name="guard-1-page,region-quarantine-0-1,stats", N_ARENA=2, GUARD_SIZE_DIVISOR=100000, REGION_QUARANTINE_RANDOM_LENGTH=0, REGION_QUARANTINE_QUEUE_LENGTH=1, STATS=True)
    al = [("m", 0), ("m", 36), ("m", 8), ("m", ("L", 1)), ("c", 36), ("a", 64, 200), ("a", 65536, 100000)]
    rel = [("f",), ("f1",), ("fs",), ("r", 36), ("r", 10), ("r", ("L", 0)), ("r", ("L", 3)), ("t",), ("u",), ("o",)]
    for cfg in (A1, A2, A3, A4):
        m = al + rel + ([("i",), ("mi",)] if cfg.over.get("STATS") else [])
        r.append(Task("locks/" + cfg.name, cfg, locks, dict(menu=m, steps=3, classes=[36, 8, 10], enum=8, threads=2), budget=B, post=post, reach=["end"]))
        r.append(Task("locks-deep/" + cfg.name, cfg, locks, dict(menu=[("m", 36), ("f",), ("f1",), ("t",), ("m", ("L", 1)), ("r", ("L", 0)), ("r", 36)], steps=5, classes=[36], enum=8, threads=1), budget=B, post=post, reach=["end"]))
        r.append(Task("locks-refusals/" + cfg.name, cfg, locks, dict(menu=[("m", 36), ("m", 10), ("m", ("L", 1)), ("f",), ("f1",), ("r", ("L", 0)), ("r", 36), ("r", ("L", 3)), ("a", 65536, 100000), ("t",)], steps=3, classes=[36], enum=8, threads=1, faults=4), budget=B, post=post, reach=["end"]))
    for cfg, cls in ((A1, 36), (A2, 33), (A4, 37), (A3, 48)):
        if cfg in (A3, A4):
            cfg = Cfg("default", name=cfg.name + ",no-slab-quarantine", **dict(cfg.over, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0))
        r.append(Task("locks-release/" + cfg.name, cfg, locks, dict(menu=[("f",), ("f1",), ("fs",), ("t",), ("r", ("L", 0)), ("r", 10), ("m", cls)], steps=4, classes=[cls], last=cls, enum=8, threads=1), setup=last_of_slabs, budget=B, post=post, reach=["end"]))
        r.append(Task("locks-release-refusals/" + cfg.name, cfg, locks, dict(menu=[("f",), ("f1",), ("t",), ("m", cls)], steps=4, classes=[cls], last=cls, enum=8, threads=1, faults=2), setup=last_of_slabs, budget=B, post=post, reach=["end"]))
    r.append(Task("locks-fork/" + A2.name, A2, locks, dict(menu=[("m", 36), ("m", ("L", 1)), ("f",), ("r", ("L", 0)), ("r", 36), ("t",), ("fk",)], steps=3, classes=[36], enum=8, threads=2), budget=B, post=post, reach=["end"]))
    AN = android("android," + A2.name, **A2.over)
    r.append(Task("locks/" + AN.name, AN, locks, dict(menu=[("m", 36), ("m", ("L", 1)), ("f",), ("r", ("L", 0)), ("t",), ("ia",), ("d",)], steps=3, classes=[36], enum=8, threads=2), budget=B, post=post, reach=["end"]))
    for cfg in (A4, A2):
        k = 32 if cfg is A4 else 44
        r.append(Task("locks-moves/" + cfg.name, cfg, locks, dict(menu=[("m", ("L", k)), ("r", ("L", k + 1)), ("r", ("L", k + 2)), ("r", ("L", 2)), ("f1",)], steps=3, classes=[36], enum=8, threads=1), budget=B, post=post, reach=["end"]))
        r.append(Task("locks-moves-refusals/" + cfg.name, cfg, locks, dict(menu=[("m", ("L", k)), ("r", ("L", k + 1)), ("r", ("L", k + 2))], steps=2, classes=[36], enum=8, threads=1, faults=4), budget=B, post=post, reach=["end"]))
    BIG = [("m", ("L", 1)), ("r", ("L", 0)), ("f",), ("f1",), ("t",)]
    # interleavings
    W = 0x200000000000
    S = 16000
    col = [W + i * (1 << 35) for i in range(4)]
    blocks = [S, S, S, S, S, 300, 300, ("L", 200000, col[0]), ("L", 200000, col[1]), ("L", 200000, col[2]), ("L", 260000, col[2] + (1 << 29))]
    t0 = [[("m", S)], [("f", 0)], [("f", 0), ("m", S)], [("m", S), ("fl",)], [("f", 7)], [("r", 7, 100000)], [("r", 7, 400000)], [("r", 7, 500)], [("m", 200000)], [("m", 200000), ("fl",)], [("r", 0, 300)], [("t",)], [("u", 6)], [("u", 10)], [("fs", 5)], [("i",)]]
    t1 = [[("m", S)], [("f", 1)], [("f", 4)], [("f", 4), ("m", S)], [("m", 300), ("fl",)], [("f", 8)], [("r", 8, 90000)], [("r", 8, 400000)], [("m", 200000)], [("f", 9), ("m", 200000)], [("m", 200000), ("fl",)], [("r", 1, 9000)], [("t",)], [("u", 9)], [("m", 150000)]]
    # moves by page table, with neighbours in the table; and a smaller mapping in the place of a released one
    bigs = [300, ("L", 40 << 20, col[0]), ("L", 200000, col[1]), ("L", 40 << 20, col[2]), ("L", 200000, col[3])]
    b0 = [[("r", 3, 48 << 20)], [("f", 3)], [("r", 3, 36 << 20)], [("f", 4)], [("r", 4, 400000)], [("r", 3, 100000)]]
    b1 = [[("f", 2)], [("m", 150000)], [("r", 1, 44 << 20)], [("r", 2, 400000)], [("m", 150000), ("fl",)], [("m", 33 << 20)], [("f", 1)]]
    later = [S, S, S, S, S, 300, 200000, 200000, 100000]
    for cfg in (A1, A2):
        n1 = cfg
        for k in range(4):
            r.append(Task("schedules/%d/%s" % (k, n1.name), n1, conc, dict(blocks=blocks, menu=[t0[k::4], t1], later=later, preempt=3 if T else 2), setup=conc_setup, budget=B, reach=["end"]))
        for k in range(2):
            r.append(Task("schedules-moves/%d/%s" % (k, n1.name), n1, conc, dict(blocks=bigs, menu=[b0[k::2], b1], later=[300, 200000, 34 << 20], preempt=3 if T else 2), setup=conc_setup, budget=B, reach=["end"]))
        r.append(Task("schedules-holes/%s" % n1.name, n1, conc, dict(blocks=bigs, menu=[[[("r", 3, 48 << 20)], [("f", 3)], [("r", 3, 36 << 20)]], [[("m", 150000), ("m", 170000), ("ff",)], [("m", 33 << 20), ("m", 150000), ("ff",)]]], low=1,
                                                                                later=[300, 200000], preempt=2), setup=conc_setup, budget=B, reach=["end"]))
    n3 = Cfg("default", name=A1.name + "", **A1.over)
    r.append(Task("schedules/3-threads/" + n3.name, n3, conc, dict(blocks=blocks, menu=[[t0[1], t0[4], t0[0], t0[6]], [t1[1], t1[2], t1[5], t1[0]], [[("m", S)], [("t",)], [("m", 200000)], [("f", 3)], [("f", 9)]]], later=later, threads=3, preempt=2 if T else 1), setup=conc_setup,
                  budget=B, reach=["end"]))
    NM = Cfg("default", name="default", native=False)
    ND = Cfg("light", name="light,stats", STATS=True, N_ARENA=1)
    NS = Cfg("light", name="light,stats,no-ext,1-arena", STATS=True, N_ARENA=1, EXTENDED_SIZE_CLASSES=False)
    for cfg in (NM, ND, NS):
        r.append(Task("first-use/" + cfg.name, cfg, first, dict(menu=["m", "o"], preempt=2 if T or cfg is NS else 1), boot=False, budget=B, reach=["end"]))
        r.append(Task("first-use-2/" + cfg.name, cfg, first, dict(menu=["c", "L", "mf", "f", "t", "i"], preempt=2 if T else 1), boot=False, budget=B, reach=["end"]))
        r.append(Task("first-use-3/" + cfg.name, cfg, first, dict(menu=["m", "L"], threads=3, preempt=1), boot=False, budget=B, reach=["end"]))
        r.append(Task("publication/" + cfg.name, cfg, publish, dict(keep=0, ops=["m", "mL", "o", "t", "i", "r0", "al"]), boot=False, budget=B, reach=["end"]))
    return r
