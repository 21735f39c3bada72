from hmsym.explore import Stop
from hmsym.runner import Cfg, Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from hmsym import env, fam, expr as X
from hmsym.expr import E
from hmsym.machine import USER_BASE, ENOMEM, EINVAL, Segv, CxxThrow

PROP = Prop("C28", bounds=["every public function incl. failing calls (impossible sizes and alignments, refused kernel requests: each single request of each operation, and all from the k-th on), fork handlers, statistics, C++ operators with new handlers, from up to 3 threads",
                           "histories of up to 4 (quick) or 6 (thorough) operations over small, large and over-aligned blocks, resizes and trims, with growth of the region table and of the slab metadata; sizes symbolic in their class",
                           "after every call: access of the calling thread to the state is denied, and the only accessible memory is that of live blocks and slabs"],
            assumptions=["the processor has protection keys and one is free; a thread starts without access", "stdio may call the allocator or the program during output"])


class Seal:
    """checks after every call that returns to the program"""

    def __init__(self, c):
        self.c = c
        self.call0, self.attempt0 = c.call, c.attempt
        self.depth = 0
        c.call = self.call
        c.attempt = self.attempt
        self.maps = {}

    def call(self, name, *args):
        self.depth += 1
        try:
            r = self.call0(name, *args)
        except Segv as e:
            self.touched(e)
            raise
        finally:
            self.depth -= 1
        self.check(name)
        return r

    def attempt(self, name, *args):
        k, v = self.attempt0(name, *args)
        if k == "throw":
            self.check(name)
        if k == "segv":
            self.touched(None)
        return k, v

    def touched(self, e):
        pass

    def check(self, name):
        c, M, hm = self.c, self.c.M, self.c.hm
        if not M.ghost.get("pkeys"):
            return
        st = hm.state
        if M._pk(3, 1) & 3:
            if st and M.seg_at(st) and not self.depth:
                c.prot(st)
            c.fail("access to allocator state is enabled after %s" % name)
        c.reach("sealed")
        if self.depth:
            return
        # mutable state without the key
        lo, hi = hm.state_map[:2] if hm.state_map else (0, 0)
        for s in M.segs:
            if s[0] >= hi or s[1] <= lo:
                continue
            if s[2] & 3 and not s[3]:
                c.prot(max(s[0], lo))
                c.fail("a page of allocator state does not carry the protection key after %s" % name)


def others(c, known):
    """nothing but memory of blocks and slabs is accessible to the program"""
    hm, M = c.hm, c.M
    for s in M.segs:
        if not 0x100000000000 <= s[0] < 0x500000000000 or not s[2] & 3 or s[3] and not M._pk(s[2], s[3]) & 3:
            if s[3] and hm.slab_start and s[0] < hm.slab_end and s[1] > hm.slab_start:
                c.prot(s[0])
                c.fail("memory of blocks carries the protection key")
            continue
        if hm.slab_start <= s[0] and s[1] <= hm.slab_end:
            continue
        x = s[0]
        for a, b in sorted(known):
            if a <= x < b:
                x = b
        if x < s[1]:
            c.prot(x)
            c.fail("accessible memory which is neither a block nor carries the protection key")


def hist(c):
    Seal(c)
    fam.hist(c)


def after(c, h, o):
    hm, M = c.hm, c.M
    if M.plog:
        return
    known = []
    for b in h.blocks:
        if b.cls is None:
            if isinstance(b.p, E) or isinstance(b.usable, E):
                return
            known.append((b.p, b.p + up(b.usable)))
    others(c, known)
    c.reach("other")


def ops(hm, cxx=False):
    """name -> function(c) issuing one operation on the prepared heap"""
    B = dict(small=24, mid=2000, big=16000, zero=0, large=300000, huge=64 << 20)
    r = {}
    for k, n in B.items():
        r["malloc-" + k] = lambda c, st, n=n: c.call("h_malloc", n)
        r["calloc-" + k] = lambda c, st, n=n: c.call("h_calloc", 1, n)
        r["free-" + k] = lambda c, st, k=k: c.call("h_free", st[k])
        r["sized-" + k] = lambda c, st, k=k, n=n: c.call("h_free_sized", st[k], n)
        r["usable-" + k] = lambda c, st, k=k: (c.call("h_malloc_usable_size", st[k]), c.call("h_malloc_object_size", st[k]), c.call("h_malloc_object_size_fast", st[k]))
        for j, m in B.items():
            r["realloc-%s-%s" % (k, j)] = lambda c, st, k=k, m=m: c.call("h_realloc", st[k], m)
        r["realloc-more-" + k] = lambda c, st, k=k, n=n: c.call("h_realloc", st[k], n * 2 + 8)
        r["realloc-same-" + k] = lambda c, st, k=k, n=n: c.call("h_realloc", st[k], n)
        r["realloc-null-" + k] = lambda c, st, n=n: c.call("h_realloc", 0, n)
        r["realloc-impossible-" + k] = lambda c, st, k=k: c.call("h_realloc", st[k], c.size("s", 1 << 47, X.MASK[64]))
    r["malloc-impossible"] = lambda c, st: c.call("h_malloc", c.size("s", 1 << 47, X.MASK[64]))
    r["calloc-overflow"] = lambda c, st: c.call("h_calloc", c.size("s", 1 << 33, 1 << 40), 1 << 40)
    r["calloc-impossible"] = lambda c, st: c.call("h_calloc", 1, c.size("s", 1 << 47, X.MASK[64]))
    for al in (0, 3, 8, 16, 64, 4096, 8192, 1 << 20):
        for n in (0, 24, 300000, 1 << 48, X.MASK[64]):
            r["aligned-%d-%d" % (al, n)] = lambda c, st, al=al, n=n: c.call("h_aligned_alloc", al, n)
            r["posix-%d-%d" % (al, n)] = lambda c, st, al=al, n=n: c.call("h_posix_memalign", USER_BASE, al, n)
            r["memalign-%d-%d" % (al, n)] = lambda c, st, al=al, n=n: c.call("h_memalign", al, n)
    for n in (0, 24, 300000, X.MASK[64]):
        r["valloc-%d" % n] = lambda c, st, n=n: (c.call("h_valloc", n), c.call("h_pvalloc", n))
    r["object-foreign"] = lambda c, st: (c.call("h_malloc_object_size", USER_BASE + 64), c.call("h_malloc_object_size_fast", USER_BASE + 64))
    r["null"] = lambda c, st: (c.call("h_free", 0), c.call("h_free_sized", 0, 5), c.call("h_malloc_usable_size", 0), c.call("h_malloc_object_size", 0), c.call("h_malloc_object_size_fast", 0))
    r["trim"] = lambda c, st: (c.call("h_free", st["small"]), c.call("h_free", st["mid"]), c.call("h_malloc_trim", 0), c.call("h_malloc_trim", 5))
    r["misc"] = lambda c, st: (c.call("h_mallopt", 1, 2), c.call("h_malloc_stats"), c.call("h_malloc_get_state"), c.call("h_malloc_set_state", 0))
    r["fork"] = lambda c, st: (c.call("@prepare"), c.call("@parent"))
    r["fork-child"] = lambda c, st: (c.call("@prepare"), c.call("@child"), c.call("h_free", st["small"]), c.call("h_malloc", 5))
    return r


def android_ops(hm):
    from props import c24

    def per(c, fn, *a):
        c24.per(c, fn, *a)
        c.seal.check(fn)

    def dis(c, st):
        c.call("h_malloc_disable")
        c.call("h_malloc_enable")
    r = {}
    r["disable"] = dis
    r["purge"] = lambda c, st: (c.call("h_free", st["small"]), c.call("h_free", st["mid"]), c.call("h_mallopt", X.MASK[32] - 100, 0))
    r["info-narenas"] = lambda c, st: (c.call("h_mallinfo_narenas"), c.call("h_mallinfo_nbins"))
    r["info-arena"] = lambda c, st: per(c, "mallinfo_arena_info", c.var("arena", 64))
    r["info-bin"] = lambda c, st: per(c, "mallinfo_bin_info", c.pick("arena", hm.narena + 1), c.var("bin", 64))
    r["info"] = lambda c, st: (c24.special(c, "mallinfo", USER_BASE), c.seal.check("mallinfo"))
    r["disable-tagging"] = lambda c, st: c.call("h_malloc_disable_memory_tagging")
    return r


CXXOPS = {}
for _n in ("_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"):
    for _s in (24, 300000, 1 << 48):
        CXXOPS["%s-%d" % (_n, _s)] = lambda c, st, f=_n, s=_s: c.attempt(f, s, *([USER_BASE] if "nothrow" in f else []))
        CXXOPS["%sa-%d" % (_n, _s)] = lambda c, st, f=_n.replace("m", "mSt11align_val_t", 1), s=_s: c.attempt(f, s, 64, *([USER_BASE] if "nothrow" in f else []))
for _n in ("_ZdlPv", "_ZdaPv"):
    CXXOPS[_n] = lambda c, st, f=_n: c.call(f, st["mid"])
    CXXOPS[_n + "-large"] = lambda c, st, f=_n: c.call(f, st["large"])
    CXXOPS[_n + "m"] = lambda c, st, f=_n: c.call(f + "m", st["mid"], 2000)


def prepare(c):
    Seal(c)
    st = {}
    for k, n in dict(small=24, mid=2000, big=16000, zero=0, large=300000, huge=64 << 20).items():
        st[k] = c.call("h_malloc", n)
    return st


def single(c):
    """every operation, optionally with requests to the kernel refused"""
    P = c.params
    hm, M = c.hm, c.M
    M.ghost["next_base"] = None
    T = dict(android_ops(hm) if P.get("android") else ops(hm), **(CXXOPS if P.get("cxx") else {}))
    names = sorted(n for n in T if not P.get("only") or n.startswith(P["only"]))
    names = names[P.get("part", 0)::P.get("parts", 1)]
    c.symbolic_random(False)
    c.seal = Seal(c)
    n = names[c.pick("op", len(names))]
    c.info["op"] = n
    st = P["st"]
    if P.get("tid"):
        c.thread(P["tid"])
    cnt = [0]
    if P.get("refuse"):
        at = c.pick("refuse", P["refuse"])
        more = c.pick("rest", 2)

        def fault(M, name, args):
            cnt[0] += 1
            return ENOMEM if cnt[0] == at + 1 or more and cnt[0] > at else 0
        M.ghost["fault"] = fault
    if P.get("handler"):
        M.ghost["get_new_handler"] = lambda M: 0x7d0000010000 if len(hs) < 2 else 0
        hs = []
        c.M.events.append(("new_handler", 1))

        def handler(M, *a):
            M.events.append(("handler", 1))
            hs.append(1)
            c.call("h_malloc", 100)
            if len(hs) > 1:
                M.events.append(("new_handler", 0))
            M.events.append(("handled", 0))
        M.ghost["fnptr"] = {0x7d0000010000: handler}
    T[n](c, st)
    if P.get("refuse") and cnt[0] <= at and at:
        raise Stop        # fewer requests than that
    M.ghost["fault"] = lambda M, name, args: 0
    # everything works afterwards, from this and another thread
    for t in (c.M.tid, 2):
        c.thread(t)
        p = c.call("h_malloc", 500)
        c.prove(X.ne(64, p, 0), "malloc fails")
        c.call("h_free", p)
    c.reach("op")
    c.reach("end")


def first(c):
    """the first call initializes the allocator"""
    P = c.params
    hm, M = c.hm, c.M
    Seal(c)
    fn = P["fns"][c.pick("fn", len(P["fns"]))]
    c.info["fn"] = fn
    b = c.call(*fn)
    if fn[0] == "h_posix_memalign":
        b = c.rd(USER_BASE, 8)
    c.thread(1)
    p = c.call("h_malloc", 100)
    c.call("h_free", p)
    c.thread(0)
    p = c.call("h_malloc", 300000)
    if isinstance(p, int) and isinstance(b, int):
        big = [a for a in (p, b) if a > 4096 and a != X.MASK[64] and not hm.slab_start <= a < hm.slab_end]
        others(c, [(a, a + up(c.call("h_malloc_usable_size", a))) for a in big])
    c.reach("end")


def atfork_allocates(c):
    """the C library allocates inside pthread_atfork"""
    M, hm = c.M, c.hm
    Seal(c)
    c.call("h_malloc", 20)
    c.reach("end")


def stats(c):
    """statistics output into a stream that uses the allocator"""
    P = c.params
    hm, M = c.hm, c.M
    c.symbolic_random(False)
    s = Seal(c)
    st = P["st"]
    k = c.pick("when", P["n"])
    what = c.pick("what", 4)
    done = [0, 0]

    def stdio(M):
        done[0] += 1
        if done[0] != k + 1:
            return
        done[1] = 1
        M.events.append(("handler", 9))
        if what == 0:
            c.call("h_malloc", 40)
        elif what == 1:
            c.call("h_free", st["mid"])
        elif what == 2:
            c.call("h_realloc", st["large"], 500000)
        else:
            if M._pk(3, 1) & 3:
                done.append(1)
        M.events.append(("handled", 0))
    M.ghost["stdio"] = stdio
    M.events.append(("call", "@malloc_info_cb", (0,)))
    try:
        r = M.fn("h_malloc_info")(M, 0, USER_BASE)
    except Segv as e:
        c.end_event(e)
        c.fail("malloc_info touches sealed state when the stream allocates")
    M.events.append(("ret", r, 32))
    M.ghost["stdio"] = None
    if len(done) > 2:
        c.fail("access to allocator state is enabled while malloc_info writes to the stream")
    s.check("malloc_info")
    if not done[1]:
        raise Stop
    c.reach("called-back")
    for fn in ("mallinfo2", "mallinfo"):
        M.events.append(("call", "@" + fn, (USER_BASE,)))
        M.fn("h_" + fn)(M, USER_BASE)
        M.events.append(("ret", 0, 0))
        s.check(fn)
    c.reach("end")


def nokey(c):
    """no key is free: everything works unsealed"""
    P = c.params
    c.M.ghost["no_pkeys"] = 1
    c.call("h_malloc", 20)
    T = ops(c.hm)
    st = prepare(c)
    ns = ["malloc-small", "free-large", "realloc-small-large", "aligned-8192-24", "trim", "fork-child"]
    T[ns[c.pick("op", len(ns))]](c, st)
    c.reach("end")


def tasks(tier, seed):
    T = tier == "thorough"
    B = 240 if T else 40
    r = []
    K = dict(SEAL_METADATA=True)
    S0 = Cfg("default", SEAL_METADATA=True, SLOT_RANDOMIZE=False, EXTENDED_SIZE_CLASSES=False, SLAB_QUARANTINE_RANDOM_LENGTH=1, SLAB_QUARANTINE_QUEUE_LENGTH=1, GUARD_SIZE_DIVISOR=100000,
             REGION_QUARANTINE_RANDOM_LENGTH=1, REGION_QUARANTINE_QUEUE_LENGTH=1, name="sealed,no-ext,quarantine-1-1")
    SN = Cfg("default", SEAL_METADATA=True, SLOT_RANDOMIZE=False, EXTENDED_SIZE_CLASSES=False, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, GUARD_SIZE_DIVISOR=100000,
             REGION_QUARANTINE_RANDOM_LENGTH=0, REGION_QUARANTINE_QUEUE_LENGTH=0, name="sealed,no-ext,no-quarantine")
    SD = Cfg("default", SEAL_METADATA=True, name="sealed")
    SL = Cfg("light", SEAL_METADATA=True, name="sealed,light")
    SS = Cfg("default", SEAL_METADATA=True, STATS=True, GUARD_SIZE_DIVISOR=100000, name="sealed,stats")
    SC = Cfg("default", SEAL_METADATA=True, cxx=True, GUARD_SIZE_DIVISOR=100000, name="sealed,c++")
    for cfg in (S0, SN, SD, SL) if T else (SN, SD):
        for i in range(4):
            r.append(Task("single/%s/%d" % (cfg.name, i), cfg, single, dict(part=i, parts=4), setup=prepare, budget=B, reach=["end", "sealed", "op"]))
    for cfg in (SN, S0) if T else (SN,):
        N = 12 if T else 5
        for pre in ("malloc", "calloc-l", "free", "realloc-small", "realloc-mid", "realloc-big", "realloc-zero", "realloc-large", "realloc-huge", "realloc-more", "realloc-null", "aligned-64", "aligned-8192", "posix-64", "posix-8192", "memalign-1048576", "valloc", "trim", "fork"):
            r.append(Task("refused/%s/%s" % (cfg.name, pre), cfg, single, dict(only=pre, refuse=N), setup=prepare, budget=B, reach=["end", "sealed"]))
    r.append(Task("single/thread-1", SN, single, dict(tid=1), setup=prepare, budget=B, reach=["end", "sealed"]))
    for st in (True, False):
        SA = android("sealed,android" + (",stats" if st else ""), glibc=True, SEAL_METADATA=True, STATS=st, SLOT_RANDOMIZE=False, GUARD_SIZE_DIVISOR=100000)
        r.append(Task("android/" + SA.name, SA, single, dict(android=1), setup=prepare, budget=B, reach=["end", "sealed"]))
    r.append(Task("c++", SC, single, dict(cxx=1, only="_Z"), setup=prepare, budget=B, reach=["end", "sealed"]))
    r.append(Task("c++/refused", SC, single, dict(cxx=1, only="_Zn", refuse=3), setup=prepare, budget=B, reach=["end", "sealed"]))
    r.append(Task("c++/handler", SC, single, dict(cxx=1, only="_Zn", refuse=3, handler=1), setup=prepare, budget=B, reach=["end", "sealed"]))
    FN = [("h_malloc", 20), ("h_malloc", 0), ("h_malloc", 300000), ("h_malloc", X.MASK[64]), ("h_calloc", 1, 100), ("h_realloc", 0, 50), ("h_aligned_alloc", 64, 64), ("h_aligned_alloc", 3, 3), ("h_posix_memalign", USER_BASE, 1 << 20, 64),
          ("h_memalign", 8192, 64), ("h_valloc", 10), ("h_pvalloc", 10), ("h_malloc_trim", 0), ("h_malloc_object_size", USER_BASE)]
    for cfg in (SD, SL, SN):
        r.append(Task("first/" + cfg.name, cfg, first, dict(fns=FN), boot=False, budget=B, reach=["end", "sealed"]))
    r.append(Task("stats/stream", SS, stats, dict(n=60 if T else 8), setup=prepare, budget=B, reach=["end", "called-back", "sealed"]))
    r.append(Task("stats/stream-late", SS, stats, dict(n=400) if T else dict(n=30), setup=prepare, budget=B, reach=["end", "called-back", "sealed"])) if T else None
    r.append(Task("no-key", SD, nokey, {}, boot=False, budget=B, reach=["end"]))
    n = 6 if T else 4
    for cfg, cl, lk in ((SN, [2, 36], ("L", 0)), (S0, [0, 33], ("L", 1)), (SD, [5, 48], ("L", 0))):
        menu = [("m", k) for k in cl] + [("m", lk), ("f0",), ("f1",), ("r", cl[-1]), ("r", lk), ("t",), ("a", 8192, 20000)]
        r.append(Task("hist/" + cfg.name, cfg, hist, dict(steps=n, classes=cl, menu=menu, checks=(), after=after), budget=B, reach=["end", "sealed", "other"]))
    # growth of the metadata: many slabs and many large blocks
    r.append(Task("grow/slabs", SN, hist, dict(steps=2, classes=[36], menu=[("mm", 36, 100), ("mm", 33, 50), ("fa",)], checks=(), after=after), budget=B, reach=["end", "sealed", "other"]))
    r.append(Task("grow/large", SN, grow, dict(n=300 if T else 200), budget=B, reach=["end", "sealed"]))
    return r


def grow(c):
    hm, M = c.hm, c.M
    c.symbolic_random(False)
    Seal(c)
    ps = []
    for i in range(c.params["n"]):
        p = c.call("h_malloc", 200000)
        ps.append(p)
        if i % 10 == 0:
            others(c, [(p, p + 200000 + 60000) for p in ps])
    for p in ps[::-1]:
        c.call("h_free", p)
    others(c, [])
    c.reach("end")
