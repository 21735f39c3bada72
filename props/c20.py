from hmsym.explore import Stop
from hmsym.runner import Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from hmsym.conc import Sched
from hmsym.machine import USER_BASE, Hang
from hmsym import fam, expr as X
from hmsym.expr import E
import hashlib

PROP = Prop("C20", bounds=["every size class of every arena and the large allocator: blocked between the prepare and the parent handler, usable afterwards and in the child, with live blocks of every kind present",
                           "every generator: arbitrary bytes left in its buffer at the fork, none of them used in the child; arbitrary bytes from the operating system, a separate seed for every generator",
                           "another thread at any point of each of 15 operations when the fork begins: all schedules with up to 2 (quick) or 3 (thorough) preemptions, then the child uses the allocator", "fork of a fork, up to 3 (quick) or 4 (thorough) operations in the child"],
            assumptions=["the C library runs the prepare handler before, and the parent and child handlers after the fork, and copies memory exactly"])
ARENA_REQ = 40


def to_arena(c, a):
    """a thread whose allocations go to the a-th arena (arenas are given out round-robin to new threads)"""
    for t in range(1, 8):
        c.thread(t)
        p = c.call("h_malloc", ARENA_REQ)
        if isinstance(p, int) and cls_arena_at(c.hm, p)[0] == a:
            return t
    c.fail("no thread was given arena %d" % a)


def setup(c):
    hm = c.hm
    h = Heap(c)
    for r in (0, 30, 300, 3000, 16000, 200000):
        h.mark(h.malloc(r))
    t = h.malloc(100)
    h.free(t)
    for a in range(hm.narena):
        to_arena(c, a)
    c.thread(0)
    return h


def held(c):
    """between prepare and parent no other thread gets anything done"""
    P = c.params
    hm, M = c.hm, c.M
    h = Heap(c)
    h.blocks = [fam.copyb(b) for b in P["st"].blocks]
    a = c.pick("arena", hm.narena)
    k = c.pick("class", hm.nclass + 1)
    t = to_arena(c, a) if hm.narena > 1 else 1
    c.thread(0)
    op = c.pick("op", 3)
    if op == 1:                      # a block of that class and arena, freed by another thread
        c.thread(t)
        req = class_range(hm, k)[1] if k < hm.nclass else 200000
        p = c.call("h_malloc", req)
        c.thread(0)
    c.info.update(arena=a, cls=k, op=op)
    c.call(P.get("before", "@prepare"))
    if op < 2:
        c.thread(t)
        req = class_range(hm, k)[1] if k < hm.nclass else 200000
        kind, v = c.attempt("h_malloc", req) if op == 0 else c.attempt("h_free", p)
        if kind == "ret":
            c.fail("another thread got a block of class %d in arena %d while the process forks" % (k, a) if op == 0 else "another thread freed a block while the process forks")
        if kind != "hang":
            c.fail("unexpected %s in another thread while the process forks" % kind)
        c.reach("blocked")
        raise Stop
    c.call(P.get("after", "@parent"))
    if M.locks:
        c.fail("a lock is still held in the parent after the fork")
    c.thread(t)
    use(c, h, k, a)
    c.reach("parent")


def use(c, h, k, arena=0):
    """allocate, resize and free in class k (or large), then release everything"""
    hm = c.hm
    h.checks = {"overlap", "access"}
    req = class_range(hm, k)[1] if k < hm.nclass else 200000
    h.arena = arena
    b = h.malloc(req)
    h.mark(b)
    b2 = h.malloc(req)
    h.free(b2)
    h.verify(b)
    h.free(b)
    for b in h.blocks[:]:
        h.verify(b, "a block live at the fork lost its contents")
        u = c.call("h_malloc_usable_size", b.p)
        c.prove(X.eq(64, u, b.usable), "usable size of a block live at the fork changed")
    h.verify_all()
    c.ok_kernel()


def child(c):
    P = c.params
    hm, M = c.hm, c.M
    h = Heap(c)
    h.blocks = [fam.copyb(b) for b in P["st"].blocks]
    a = c.pick("arena", hm.narena)
    k = c.pick("class", hm.nclass + 1)
    t = to_arena(c, a) if hm.narena > 1 else 0
    # unused buffered bytes of that generator are arbitrary from here on
    c.symbolic_random()
    if k < hm.nclass:
        rng_fresh(c, class_rng(c, k, a))
    else:
        rng_fresh(c, region_rng(c))
    c.info.update(arena=a, cls=k)
    if c.pick("forking", 2):
        c.thread(0)
    c.call("@prepare")
    seeds = []

    def getrandom(M, buf, n, flags):
        i = len(seeds)
        b = (hashlib.sha512(b"child%d" % i).digest() * 2)[:n]
        for j in range(n):
            M.store(X.add(64, buf, j), 1, b[j])
        seeds.append(b)
        M.events.append(("getrandom", n, i, n, 0, list(b)))
        return n
    M.ghost["getrandom"] = getrandom
    c.call("@child")
    if M.locks:
        c.fail("a lock is not usable in the child")
    nk = len([e for e in M.events if e[0] == "ks"])
    keys = []

    def ks(M, k_, n):
        ctx = M.ghost["ksctx"]
        words = [M.rdword(ctx + 8 * i) for i in range(8)]
        keys.append(words)
        return [X.var("child%d_%d:64" % (k_, i), 64) for i in range((n + 7) // 8)]
    M.ghost["ksmode"] = ks
    nl = len(M.links)
    npc = len(M.pc)
    h.checks = {"overlap", "access"}
    c.thread(t)
    h.arena = a
    req = class_range(hm, k)[1] if k < hm.nclass else 200000
    b = h.malloc(req)
    h.mark(b)
    b2 = h.malloc(req)
    h.free(b2)
    old = [l.var for l in M.links[nl:] if l.var.a[0].startswith("rk")] if M.links[nl:] else []
    used = set()
    for x in M.pc[npc:]:
        used |= {v for v in X.varsof(x)}
    for x in (b.p, b2.p):
        if isinstance(x, E):
            used |= X.varsof(x)
    if old or any(str(v.a[0]).startswith("rk") for v in used):
        c.fail("the child uses random bytes the parent has too")
    draws = k == hm.nclass or cfg_random(hm, k)
    if draws and not keys:
        c.fail("the child does not reseed its generators")
    for w in keys:
        by = b"".join(x.to_bytes(8, "little") for x in w if not isinstance(x, E)) if not any(isinstance(x, E) for x in w) else b""
        if not any(s[i:i + 32] in by for s in seeds for i in range(0, max(1, len(s) - 31), 4)):
            c.fail("a generator of the child has a key that is not from the operating system")
    c.reach("reseeded" if keys else "no draw")
    for b in h.blocks[:]:
        h.verify(b, "a block live at the fork lost its contents")
        h.free(b)
    c.ok_kernel()
    c.reach("end")


def cfg_random(hm, k):
    return hm.cfg["SLOT_RANDOMIZE"] == "true"


def generators(c):
    """every generator gets its own seed in the child"""
    hm, M = c.hm, c.M
    h = Heap(c)
    h.blocks = [fam.copyb(b) for b in c.params["st"].blocks]
    c.call("@prepare")
    seeds = {}

    def getrandom(M, buf, n, flags):
        i = len(seeds)
        b = (hashlib.sha512(b"gen%d" % i).digest() * 2)[:n]
        for j in range(n):
            M.store(X.add(64, buf, j), 1, b[j])
        seeds[b[:32]] = 0
        M.events.append(("getrandom", n, i, n, 0, list(b)))
        return n
    M.ghost["getrandom"] = getrandom
    c.call("@child")
    bad = []

    def late(M, b, n, f):
        bad.append("a generator was not reseeded in the child at once")
        return getrandom(M, b, n, f)

    def done():
        if bad:
            c.fail(bad[0])
    M.ghost["getrandom"] = late
    seen = {}
    cur = [None]

    def ks(M, k_, n):
        from hmsym.env import ks_words
        ctx = M.ghost["ksctx"]
        by = b"".join(M.rdword(ctx + 8 * i).to_bytes(8, "little") for i in range(8))
        key = [s for s in seeds if s in by]
        if not key:
            bad.append("a generator of the child has a key that is not from the operating system")
        elif seen.setdefault(key[0], cur[0]) != cur[0]:
            bad.append("two generators of the child share their key")
        return ks_words(k_ + 100000, (n + 7) // 8)
    M.ghost["ksmode"] = ks
    n = 0
    for a in range(hm.narena):
        if hm.narena > 1:
            for t in range(1, 8):
                c.thread(t)
                cur[0] = None
                M.ghost["ksmode"] = 0
                p = c.call("h_malloc", class_range(hm, 3)[1])
                M.ghost["ksmode"] = ks
                done()
                if cls_arena_at(hm, p)[0] == a:
                    break
        for k in range(hm.nclass):
            if k == 3:
                continue
            cur[0] = (a, k)
            c.call("h_free", c.call("h_malloc", class_range(hm, k)[1]))
            done()
            n += 1
    cur[0] = "large"
    c.call("h_free", c.call("h_malloc", 200000))
    done()
    if cfg_random(hm, 1) and len(seen) < n:
        c.fail("generators of the child share their keys")
    c.reach("end")


class Forked(Exception):
    pass


def racing(c):
    """another thread is anywhere inside an operation when the fork begins"""
    P = c.params
    hm, M = c.hm, c.M
    h = Heap(c, ("overlap", "access"))
    h.blocks = [fam.copyb(b) for b in P["st"].blocks]
    S = 16000
    mid = [b for b in h.blocks if b.req == S]
    big = [b for b in h.blocks if b.req == 200000]
    menu = [[("h_malloc", S)], [("h_malloc", 200000)], [("h_free", mid[0])], [("h_free", big[0])], [("h_realloc", big[0], 500000)], [("h_realloc", big[0], 170000)], [("h_realloc", mid[0], 300000)], [("h_realloc", big[0], 300)], [("h_malloc_trim", 0)],
            [("h_free", mid[0]), ("h_malloc", S)], [("h_free", mid[0]), ("h_free", mid[1]), ("h_free", mid[2]), ("h_free", mid[3])], [("h_aligned_alloc", 65536, 200000)], [("h_malloc_usable_size", mid[0])], [("h_malloc", 0)], [("h_calloc", 5, 50)]]
    o = menu[c.pick("op", len(menu))]
    c.info["op"] = [x[0] for x in o]
    mine = [x for y in o for x in y if isinstance(x, Block) and y[0] != "h_malloc_usable_size"]
    for b in mine:
        h.blocks.remove(b)
    par = c.pick("parent", 2)

    def t0():
        c.call("@prepare")
        for m, t in M.locks.items():
            if t != M.tid:
                c.fail("another thread is inside the allocator when the process forks")
        if par:
            c.call("@parent")
        else:
            raise Forked()

    def t1():
        for y in o:
            c.call(y[0], *[x.p if isinstance(x, Block) else x for x in y[1:]])
    s = Sched(c, [t0, t1], preempt=P.get("preempt", 2))
    c.info["schedule"] = s.log
    try:
        s.run()
    except Forked:
        M.tid = 0
        c.call("@child")
        c.reach("child")
    if M.locks:
        c.fail("a lock is still held")
    for req in P["later"]:
        h.mark(h.malloc(req))
    c.call("h_malloc_trim", 0)
    for b in h.blocks[:]:
        h.verify(b, "a block live at the fork lost its contents")
        h.free(b)
    for req in P["later"][:4]:
        h.mark(h.malloc(req))
    h.verify_all()
    c.ok_kernel()
    c.reach("end")


def again(c):
    """forks in a row with operations in between"""
    P = c.params
    hm, M = c.hm, c.M
    fresh(c, 36, region=True)
    h = Heap(c, ("overlap", "access"))
    h.blocks = [fam.copyb(b) for b in P["st"].blocks]
    log = c.info["ops"] = []
    for i in range(P["steps"]):
        o = P["menu"][c.pick("op", len(P["menu"]))]
        log.append(o)
        if o[0] == "fork":
            c.call("@prepare")
            c.call("@child")
        elif o[0] == "pfork":
            c.call("@prepare")
            c.call("@parent")
        elif fam.step_ok(h, o):
            fam.step(c, h, o)
        if M.locks:
            c.fail("a lock is still held")
    h.verify_all()
    for b in h.blocks[:]:
        h.free(b)
    c.ok_kernel()
    c.reach("end")


def tasks(tier, seed):
    T = tier == "thorough"
    B = 90 if T else 10
    r = []
    Z = dict(ZERO_ON_FREE=False, WRITE_AFTER_FREE_CHECK=False)
    A = Cfg("default", name="default,no-zeroing", **Z)
    A1 = Cfg("light", name="light,no-ext,1-arena", N_ARENA=1, EXTENDED_SIZE_CLASSES=False)
    A3 = Cfg("default", name="no-ext,no-quarantine,guard-1-page,3-arenas,no-zeroing", N_ARENA=3, EXTENDED_SIZE_CLASSES=False, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, REGION_QUARANTINE_RANDOM_LENGTH=0, REGION_QUARANTINE_QUEUE_LENGTH=0,
             GUARD_SIZE_DIVISOR=100000, **Z)
    for cfg in (A, A1, A3):
        r.append(Task("locked-out/" + cfg.name, cfg, held, dict(), setup=setup, budget=B, reach=["blocked", "parent"]))
        r.append(Task("child/" + cfg.name, cfg, child, dict(enum=256), setup=setup, budget=B * 1.5, reach=["end", "reseeded"]))
        r.append(Task("generators/" + cfg.name, cfg, generators, dict(), setup=setup, budget=B, reach=["end"]))
    # Android: the allocator is disabled while the process is inspected
    AA = android("android,no-zeroing", **Z)
    r.append(Task("disabled/" + AA.name, AA, held, dict(before="h_malloc_disable", after="h_malloc_enable"), setup=setup, budget=B, reach=["blocked", "parent"]))
    r.append(Task("locked-out/" + AA.name, AA, held, dict(), setup=setup, budget=B, reach=["blocked", "parent"]))
    M1 = Cfg("default", name="no-ext,no-quarantine,guard-1-page,1-arena,no-zeroing", **dict(A3.over, N_ARENA=1))
    M2 = Cfg("default", name="no-ext,no-slab-quarantine,guard-1-page,2-arenas,no-zeroing", **dict(A3.over, N_ARENA=2, REGION_QUARANTINE_RANDOM_LENGTH=1, REGION_QUARANTINE_QUEUE_LENGTH=1))

    def rsetup(c):
        h = Heap(c)
        for q in (16000, 16000, 16000, 16000, 200000, 200000, 300, 0):
            h.mark(h.malloc(q)) if q else h.malloc(q)
        return h
    for cfg in (M1, M2):
        r.append(Task("racing/" + cfg.name, cfg, racing, dict(later=[16000, 16000, 16000, 16000, 200000, 0, 300], preempt=3 if T else 2), setup=rsetup, budget=B * 2, reach=["end", "child"]))
    r.append(Task("repeated/" + A3.name, A3, again, dict(steps=5 if T else 4, menu=[("fork",), ("pfork",), ("m", 36), ("m", ("L", 1)), ("f0",), ("f1",), ("r", ("L", 2)), ("t",)], enum=8), setup=rsetup, budget=B, reach=["end"]))
    return r
