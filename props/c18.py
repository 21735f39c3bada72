from hmsym.explore import Stop
from hmsym.runner import Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from hmsym.machine import USER_BASE, ENOMEM
from props.c16 import npos
from hmsym import fam, expr as X
from hmsym.expr import E

PROP = Prop("C18", bounds=["every operation (allocation functions, over-aligned allocation, resize in all directions incl. page moving, free, sized free, trim) with the k-th memory system call refused, for every k, optionally together with any later one or all later ones",
                           "histories of up to 3 (quick) or 5 (thorough) operations with a refusal in each", "growth of the region table and of the slab metadata refused at any point", "any other error number (all of 1..4095 except ENOMEM) of each call",
                           "small sizes symbolic within the class; placement and guard sizes arbitrary"],
            assumptions=["refusal means ENOMEM; the refused call changed nothing"])


class Faults:
    """refuses chosen memory system calls of the armed operation"""

    def __init__(self, c):
        self.c, self.on, self.n, self.hit = c, None, 0, 0
        c.M.ghost["fault"] = self

    def arm(self, f):
        self.on, self.n, self.hit, self.names = f, 0, 0, []

    def off(self):
        self.on = None

    def __call__(self, M, name, args):
        if self.on is None:
            return 0
        i = self.n
        self.n += 1
        e = self.on(i, name, args)
        if not isinstance(e, int) or e:
            self.hit += 1
            self.names.append(name)
        return e


def outside(c):
    """mappings other than the size class ranges and the allocator state"""
    M, hm = c.M, c.hm
    if M.plog:
        return None
    st = hm.state_map if hm.state is not None else (0, 0)
    r = []
    for s in M.segs:
        if s[1] <= hm.slab_start or s[0] >= hm.slab_end:
            if not (st[0] <= s[0] < st[1]):
                if r and r[-1][1] == s[0] and r[-1][2] == s[2] & 3 and r[-1][3] == s[4]:
                    r[-1] = (r[-1][0], s[1]) + r[-1][2:]
                else:
                    r.append((s[0], s[1], s[2] & 3, s[4]))
    return r


def do(c, h, o):
    """one operation; returns 'ok', 'failed' (NULL with ENOMEM), or None when it does not apply"""
    hm, M = c.hm, c.M
    k = o[0]
    c.set_errno(0)
    if k in ("f0", "f1", "fs"):
        b = h.blocks[0] if k != "f1" else h.blocks[-1]
        h.verify(b)
        if k == "fs":
            c.call("h_free_sized", b.p, b.req)
        else:
            c.call("h_free", b.p)
        h.freed(b)
        return "ok"
    if k == "t":
        r = c.call("h_malloc_trim", 0)
        return "ok"
    if k == "r":
        b = h.blocks[-1]
        req, cls = o[1] if isinstance(o[1], tuple) and o[1][0] == "x" else None, None
        if req:
            req = o[1][1]
            cls = doc_class(hm, req)
        else:
            req, cls = fam.sym_req(c, o[1], "sn"), fam.lcls(o[1])
        q = c.call("h_realloc", b.p, req)
        if c.branch(X.eq(64, q, 0)):
            enomem(c)
            h.verify(b, "contents lost by a failed realloc")
            h.check_access(b)
            return "failed"
        keep = min(b.usable, X.lo_(req) if isinstance(req, E) else req)
        mk = [(of, v) for of, v in b.mark or () if of + 8 <= keep]
        if c.branch(X.eq(64, q, b.p)):
            if cls is None and b.cls is None:
                b.usable = b.span = large_usable(hm, req if isinstance(req, int) else X.lo_(req))
            b.req = req
            b.mark = mk
            h.verify(b, "realloc lost the contents")
            return "ok"
        h.freed(b)
        nb = h.got(q, req, cls, nozero=True)
        nb.mark = mk
        h.verify(nb, "realloc lost the contents")
        return "ok"
    al = 16
    if k == "x":
        req, cls = o[1], doc_class(hm, o[1])
        fn, args = "h_malloc", (req,)
    elif k == "m":
        req, cls = fam.sym_req(c, o[1]), fam.lcls(o[1])
        fn, args = ("h_malloc", (req,)) if len(o) < 3 else ("h_calloc", (req, 1))
    elif k == "a":
        al, req = o[1], o[2]
        cls = fam.aligned_class(hm, al, req)
        if len(o) > 3:
            c.wr(USER_BASE, 0x77, 8)
            r = c.call("h_posix_memalign", USER_BASE, al, req)
            v = c.rd(USER_BASE, 8)
            if c.branch(X.ne(32, r, 0)):
                c.prove(X.eq(32, r, ENOMEM), "posix_memalign failed with another error than ENOMEM")
                return "failed"
            b = h.got(v, req, cls, align=max(al, 16))
            h.mark(b)
            return "ok"
        fn, args = "h_aligned_alloc", (al, req)
    p = c.call(fn, *args)
    if c.branch(X.eq(64, p, 0)):
        enomem(c)
        return "failed"
    b = h.got(p, req, cls, align=max(al, 16))
    h.mark(b)
    return "ok"


def enomem(c):
    c.prove(X.eq(32, c.errno(), ENOMEM), "failed call did not set errno to ENOMEM")


def applies(h, o):
    return not (o[0] in ("f0", "f1", "fs", "r") and not h.blocks or o[0] == "f1" and len(h.blocks) < 2)


def check_all(c, h):
    for b in h.blocks:
        h.verify(b)
        h.check_access(b)
        u = c.call("h_malloc_usable_size", b.p)
        c.prove(X.eq(64, u, b.usable), "usable size of a live block changed")
    c.ok_kernel()


def prep(c, h, F):
    for o in c.params.get("prep", ()):
        if do(c, h, o) != "ok":
            c.fail("allocation failed although memory is available")


def one(c):
    """refusals in each of a few operations; then everything works"""
    P = c.params
    hm, M = c.hm, c.M
    if P.get("sym", 1):
        fresh(c, *P.get("rnd", ()), region=True)
    F = Faults(c)
    h = Heap(c, ("overlap", "access", "align", "zero"))
    prep(c, h, F)
    log = c.info["ops"] = []
    for i in range(P["steps"]):
        ops = [o for o in P["menu"] if applies(h, o)]
        o = ops[c.pick("op", len(ops))]
        k = c.pick("k", P["k"])
        mode = c.pick("mode", 3)          # just this one, this one and another, all from here
        k2 = k + 1 + c.pick("k2", 3) if mode == 1 else 0
        F.arm(lambda n, name, a: ENOMEM if n == k or mode == 1 and n == k2 or mode == 2 and n > k else 0)
        log.append((o, k, mode, k2))
        was = outside(c)
        r = do(c, h, o)
        n, hit = F.n, F.hit
        F.off()
        if n <= k:
            if k > 0 or mode > 0:
                raise Stop           # fewer system calls than k: same as k = 0 without a refusal
        if r == "failed":
            c.reach("failed")
            if not hit:
                c.fail("call failed although memory is available")
            if was is not None and ("munmap" not in F.names or F.hit == 1):
                for x in outside(c) or ():
                    if x not in was:
                        c.prot(x[0])
                        c.fail("a failed call left memory mapped or changed at %#x" % x[0])
            check_all(c, h)
            if do(c, h, o) != "ok":       # now the kernel grants
                c.fail("call failed although memory is available")
        elif hit:
            c.reach("survived")
        check_all(c, h)
    # new allocations of every kind, then release everything
    for o in (("x", 300), ("x", 200000), ("x", hm.maxslab - 8)):
        if do(c, h, o) != "ok":
            c.fail("allocation failed although memory is available")
    h.verify_all()
    for b in h.blocks[:]:
        h.verify(b)
        h.free(b)
    c.call("h_malloc_trim", 0)
    c.ok_kernel()
    c.reach("end")


def other(c):
    """any other error terminates"""
    P = c.params
    hm, M = c.hm, c.M
    if P.get("sym", 1):
        fresh(c, region=True)
    F = Faults(c)
    h = Heap(c)
    prep(c, h, F)
    ops = [o for o in P["menu"] if applies(h, o)]
    o = ops[c.pick("op", len(ops))]
    k = c.pick("k", P["k"])
    first = c.pick("after-refusal", 2) if k and P.get("both") else 0     # an earlier call was refused with ENOMEM
    e = c.size("err", 1, 4095)
    c.assume(X.ne(64, e, ENOMEM))
    e = X.trunc(32, e)
    F.arm(lambda n, name, a: e if n == k else ENOMEM if first and n == k - 1 else 0)
    c.info.update(op=o, k=k, err=e)
    before = len(M.stderr)
    kind, v = c.attempt(*call_of(c, h, o))
    if F.n <= k:
        raise Stop
    if kind != "fatal":
        c.fail("unexpected error of a memory system call did not terminate the process (%s)" % kind)
    c.reach("fatal")


def call_of(c, h, o):
    hm = c.hm
    k = o[0]
    if k in ("f0", "f1"):
        return "h_free", h.blocks[0 if k == "f0" else -1].p
    if k == "fs":
        return "h_free_sized", h.blocks[0].p, h.blocks[0].req
    if k == "t":
        return "h_malloc_trim", 0
    if k == "r":
        return "h_realloc", h.blocks[-1].p, o[1][1] if isinstance(o[1], tuple) and o[1][0] == "x" else fam.sym_req(c, o[1], "sn")
    if k == "x":
        return "h_malloc", o[1]
    if k == "m":
        return "h_malloc", fam.sym_req(c, o[1])
    return "h_aligned_alloc", o[1], o[2]


def meta(c):
    """growth of the bookkeeping of slabs or large blocks is refused once"""
    P = c.params
    hm, M = c.hm, c.M
    F = Faults(c)
    h = Heap(c, ("overlap",))
    for b0 in P["st"]:
        h.blocks.append(fam.copyb(b0))
    k = c.pick("k", P["k"])
    mode = c.pick("mode", 2)

    def f(n, name, a):
        if isinstance(a[0], int) and hm.slab_start <= a[0] < hm.slab_end or name in ("munmap", "madvise") or name == "mmap" or isinstance(a[0], E):
            F.n -= 1
            return 0
        if name == "mprotect" and P.get("large") and not in_state(hm, M, a[0]):
            F.n -= 1
            return 0
        return ENOMEM if n == k or mode and n == k + 1 else 0
    F.arm(f)
    bad = 0
    for i in range(P["n"]):
        r = do(c, h, ("x", P["req"]))
        if r == "failed":
            bad += 1
            c.reach("failed")
            if bad > 2 or not F.hit:
                c.fail("allocation failed although memory is available")
    F.off()
    for i in range(P["n"] // 2 if not P.get("large") else 5):
        if do(c, h, ("x", P["req"])) != "ok":
            c.fail("allocation failed although memory is available")
    for b in h.blocks:
        h.verify(b)
    for b in h.blocks[:]:
        u = c.call("h_malloc_usable_size", b.p)
        c.prove(X.eq(64, u, b.usable), "usable size of a live block changed")
        h.free(b)
    c.ok_kernel()
    c.reach("end")


def cap_setup(c):
    """the number of blocks the class range can hold, counted once; everything is released again"""
    bs = []
    while True:
        p = c.call("h_malloc", c.params["req"])
        if isinstance(p, E):
            p = c.M.choose(p)
        if p == 0:
            break
        bs.append(p)
    for p in bs:
        c.call("h_free", p)
    return len(bs)


def capacity(c):
    """no refusal loses a slab: in the end the class range holds as many blocks as ever"""
    P = c.params
    hm, M = c.hm, c.M
    total = P["st"] if not P.get("cap") else len(npos(hm, P["cls"], 2)) * hm.slots[P["cls"]]
    fresh(c, P["cls"])
    F = Faults(c)
    live = []
    log = c.info["ops"] = []
    req = P["req"]

    def alloc():
        p = c.call("h_malloc", req)
        if isinstance(p, E):
            p = M.choose(p)
        if p:
            if p in live:
                c.fail("block handed out twice")
            live.append(p)
        return p
    for i in range(P["steps"]):
        ops = ["a"] + ["f"] * bool(live) + ["t"]
        o = ops[c.pick("op", len(ops))]
        k = c.pick("k", P["k"])
        F.arm(lambda n, name, a: ENOMEM if n == k - 1 else 0)
        log.append((o, k))
        c.set_errno(0)
        if o == "a":
            if alloc() == 0:
                if not F.hit and len(live) < total - P["fsq"] * hm.slots[P["cls"]]:
                    c.fail("allocation failed although memory is available")
                enomem(c)
                c.reach("failed")
        elif o == "f":
            p = live.pop(c.pick("which", 2) * -1)
            c.call("h_free", p)
        else:
            c.call("h_malloc_trim", 0)
        if k and not F.hit:
            raise Stop
        F.off()
    while alloc():
        if len(live) > total:
            c.fail("more blocks than the class range holds")
    if len(live) < total - P["fsq"] * hm.slots[P["cls"]]:
        c.fail("after a refusal the class range holds only %d of %d blocks" % (len(live), total))
    c.ok_kernel()
    c.reach("end")


def full_setup(c):
    """as many large blocks as the table can describe"""
    h = Heap(c)
    g = c.M.ghost
    while True:
        p = c.call("h_malloc", 200000)
        if isinstance(p, E):
            p = c.M.choose(p)
        if p == 0 or len(h.blocks) > 400:
            break
        h.mark(h.got(p, 200000))
    small = c.call("h_malloc", 500)
    c.wr(small, 0x1122334455667788, 8)
    return h.blocks, small


def table_full(c):
    """the table of large blocks is at its limit: calls fail with ENOMEM and change nothing; room is made by releasing a block"""
    P = c.params
    hm, M = c.hm, c.M
    fresh(c, region=True)
    bl, small = P["st"]
    h = Heap(c, ("overlap", "access"))
    h.blocks = [fam.copyb(b) for b in bl]
    if len(bl) > 400:
        raise Stop
    calls = [("h_malloc", 300000), ("h_calloc", 300, 1000), ("h_aligned_alloc", 65536, 300), ("h_memalign", 4096, 200000), ("h_realloc", 0, 150000), ("h_realloc", small, 200000), ("h_realloc", bl[-1].p, 400000), ("h_realloc", bl[0].p, 100 << 20), ("posix", 1 << 20, 5000), ("h_valloc", 140000),
             ("h_pvalloc", 140000)]
    o = calls[c.pick("call", len(calls))]
    c.info["call"] = o
    was = outside(c)
    c.set_errno(0)
    if o[0] == "posix":
        c.wr(USER_BASE, 77, 8)
        c.prove(X.eq(32, X.trunc(32, c.call("h_posix_memalign", USER_BASE, *o[1:])), ENOMEM), "a refused posix_memalign does not return ENOMEM")
        c.prove(X.eq(64, c.rd(USER_BASE, 8), 77), "output pointer modified on failure")
    else:
        c.prove(X.eq(64, c.call(*o), 0), "allocation succeeded although the table is full")
        enomem(c)
    for x in outside(c):
        if x not in was:
            c.prot(x[0])
            c.fail("a failed call left memory mapped or changed at %#x" % x[0])
    c.prove(X.eq(64, c.rd(small, 8), 0x1122334455667788), "contents of a live block changed")
    for b in h.blocks[::9] + h.blocks[-1:]:
        h.verify(b)
        c.prove(X.eq(64, c.call("h_malloc_usable_size", b.p), b.usable), "usable size of a live block changed")
    # small requests and shrinking in place still work, and releasing makes room
    h.mark(h.malloc(300))
    k = c.pick("room", 3)
    b = h.blocks[5]
    if k == 0:
        h.free(b)
    elif k == 1:
        c.call("h_free_sized", b.p, 200000)
        h.freed(b)
    else:
        h.realloc(b, 40)
    h.mark(h.malloc(250000))
    c.set_errno(0)
    c.prove(X.eq(64, c.call("h_malloc", 300000), 0), "allocation succeeded although the table is full")
    enomem(c)
    h.verify_all()
    c.ok_kernel()
    c.reach("end")


def in_state(hm, M, a):
    if hm.state is None:
        return True
    r = hm.state_map
    return r[0] <= a < r[1]


def meta_setup(c):
    h = Heap(c)
    for _ in range(c.params["pre"]):
        h.mark(h.malloc(c.params["req"]))
    return h.blocks


def tasks(tier, seed):
    T = tier == "thorough"
    B = 90 if T else 8
    r = []
    H1 = Cfg("default", GUARD_SIZE_DIVISOR=100000, name="guard-1-page")
    Q1 = Cfg("default", EXTENDED_SIZE_CLASSES=False, GUARD_SIZE_DIVISOR=100000, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, REGION_QUARANTINE_RANDOM_LENGTH=1, REGION_QUARANTINE_QUEUE_LENGTH=1,
             FREE_SLABS_QUARANTINE_RANDOM_LENGTH=2, name="no-ext,guard-1-page,no-slab-quarantine,region-quarantine-1-1")
    Q0 = Cfg("default", EXTENDED_SIZE_CLASSES=False, GUARD_SIZE_DIVISOR=100000, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, REGION_QUARANTINE_RANDOM_LENGTH=0, REGION_QUARANTINE_QUEUE_LENGTH=0,
             FREE_SLABS_QUARANTINE_RANDOM_LENGTH=0, ZERO_ON_FREE=False, WRITE_AFTER_FREE_CHECK=False, name="no-ext,guard-1-page,no-quarantine,no-zeroing")
    E1 = Cfg("default", GUARD_SIZE_DIVISOR=100000, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, ZERO_ON_FREE=False, WRITE_AFTER_FREE_CHECK=False, REGION_QUARANTINE_RANDOM_LENGTH=0,
             REGION_QUARANTINE_QUEUE_LENGTH=1, name="guard-1-page,no-slab-quarantine,no-zeroing,region-quarantine-0-1")
    small = [("m", 0), ("m", 36), ("m", 30, 1), ("a", 64, 100), ("a", 256, 500, 1)]
    large = [("m", ("L", 0)), ("m", ("L", 3), 1), ("a", 8192, 20000), ("a", 65536, 200000, 1)]
    rel = [("f0",), ("f1",), ("fs",), ("t",)]
    res = [("r", 0), ("r", 36), ("r", ("L", 0)), ("r", ("L", 2)), ("r", 5)]
    pre = [("x", 100), ("x", 70000), ("x", 200000), ("a", 16384, 300000)]
    pre2 = [("x", 5000), ("x", 16000), ("x", 16000), ("x", 16000), ("x", 16000), ("x", 200000), ("x", 100)]
    K = 6
    for cfg in (H1, Q1, Q0):
        r.append(Task("allocate/" + cfg.name, cfg, one, dict(menu=small + large, steps=1, k=K, prep=pre, enum=8), budget=B, reach=["end", "failed"]))
        r.append(Task("release/" + cfg.name, cfg, one, dict(menu=rel, steps=2, k=K, prep=pre2 if cfg is not H1 else pre, enum=8), budget=B, reach=["end"]))
        r.append(Task("resize/" + cfg.name, cfg, one, dict(menu=res, steps=1, k=7, prep=pre, enum=8), budget=B, reach=["end", "failed"]))
        r.append(Task("resize-small/" + cfg.name, cfg, one, dict(menu=res, steps=1, k=7, prep=pre[:1], enum=8), budget=B, reach=["end", "failed"]))
        r.append(Task("history/" + cfg.name, cfg, one, dict(menu=[("x", 16000 if cfg is not H1 else 131000), ("x", 200000), ("a", 16384, 20000), ("f0",), ("f1",), ("t",), ("r", ("x", 300000)), ("r", ("x", 9000))], steps=5 if T else 3, k=4, sym=1, enum=8), budget=B, reach=["end", "failed"]))
        r.append(Task("other-errors/" + cfg.name, cfg, other, dict(menu=small[:3] + large[::2] + rel + res, k=K, prep=pre, both=1, enum=8), budget=B, reach=["fatal"]))
        r.append(Task("other-errors-empty/" + cfg.name, cfg, other, dict(menu=rel + res[:3], k=4, prep=pre2[:5] if cfg is not H1 else [("x", 131000)] * 2, both=1, enum=8), budget=B, reach=["fatal"] if cfg is not H1 else []))
    # slabs of one slot: cached, released, replaced
    r.append(Task("slabs/" + E1.name, E1, one, dict(menu=[("x", 131000), ("x", 80000), ("f0",), ("f1",), ("t",)], steps=5 if T else 4, k=2, enum=32), budget=B, reach=["end", "failed", "survived"]))
    for fsq, cls, req in ((0, 48, 131000), (1, 48, 131000), (0, 44, 65000), (0, 36, 16000)):
        C = Cfg("default", CLASS_REGION_SIZE=1 << 20, GUARD_SIZE_DIVISOR=100000, GUARD_SLABS_INTERVAL=2, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, ZERO_ON_FREE=False, WRITE_AFTER_FREE_CHECK=False,
                FREE_SLABS_QUARANTINE_RANDOM_LENGTH=fsq, SLOT_RANDOMIZE=False, name="range-1M,no-slab-quarantine,free-slabs-%d,no-slot-randomization" % fsq)
        r.append(Task("capacity/%s/%d" % (C.name, cls), C, capacity, dict(cls=cls, req=req, fsq=fsq, steps=5 if T else 3, k=3, enum=64), setup=cap_setup, budget=B, reach=["end", "failed"]))
        r.append(Task("capacity-new/%s/%d" % (C.name, cls), C, capacity, dict(cls=cls, req=req, fsq=fsq, steps=5 if T else 3, k=4, enum=64, cap=1), budget=B, reach=["end", "failed"]))
    TF = Cfg("default", CLASS_REGION_SIZE=1 << 20, GUARD_SIZE_DIVISOR=100000, SLOT_RANDOMIZE=False, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, REGION_QUARANTINE_RANDOM_LENGTH=0, REGION_QUARANTINE_QUEUE_LENGTH=1,
             name="range-1M,guard-1-page,region-quarantine-0-1,first-slot")
    r.append(Task("table-full/" + TF.name, TF, table_full, dict(enum=64), setup=full_setup, budget=B * 2, reach=["end"]))
    # page moving
    BIG = [("r", ("x", 48 << 20)), ("r", ("x", 36 << 20)), ("r", ("x", 32 << 20)), ("r", ("x", 100000)), ("r", ("x", 100))]
    for cfg in (H1, Q0):
        r.append(Task("moves/" + cfg.name, cfg, one, dict(menu=BIG + [("f1",), ("f0",)], steps=1, k=8, prep=[("x", 300), ("x", 40 << 20)], enum=8), budget=B, reach=["end", "failed", "survived"]))
        r.append(Task("moves-other-errors/" + cfg.name, cfg, other, dict(menu=BIG + [("f1",)], k=8, prep=[("x", 300), ("x", 40 << 20)], both=1, enum=8), budget=B, reach=["fatal"]))
    # bookkeeping
    r.append(Task("slab-metadata/" + E1.name, E1, meta, dict(pre=0, n=60, req=40000, k=3), setup=meta_setup, budget=B * 2, reach=["end", "failed"]))
    r.append(Task("slab-metadata-2/" + Q1.name, Q1, meta, dict(pre=140, n=40, req=16000, k=3), setup=meta_setup, budget=B * 2, reach=["end"]))
    for pre_ in (90, 95):
        r.append(Task("region-table/%d" % pre_, H1, meta, dict(pre=pre_, n=10, req=200000, k=3, large=1), setup=meta_setup, budget=B * 2, reach=["end", "failed"]))
    return r
