from hmsym.explore import Stop, fatal_text
from hmsym.runner import Cfg, Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from hmsym import env, fam, expr as X
from hmsym.expr import E
from hmsym.machine import USER_BASE, ENOMEM, EINTR, EINVAL

PROP = Prop("C25", bounds=["errno: every 32-bit value, for free, free_sized, free_aligned_sized, operator delete of small, zero-size, large, over-aligned and null pointers in every state reached by up to 3 (quick) or 5 (thorough) operations; each kernel call of the free refused in turn; failing memory labels",
                           "fatal errors: every kind of detected misuse and of unexpected kernel error; up to 2 (quick) or 3 (thorough) interrupted or partial writes at any place of the message with every length; failing writes"],
            assumptions=["a write returns -1 or between 1 and the requested number of bytes", "a write error other than an interruption may cut the message short, the process is aborted all the same"])


# ------------------------------------------------------------------ errno
def conc(c, p):
    return c.M.choose(p) if isinstance(p, E) else p


def free_one(c, p, kind, size, tag):
    """one deallocation with an arbitrary errno before"""
    M = c.M
    e = c.var("errno", 32)
    c.set_errno(e)
    if kind == "free":
        k, v = c.attempt("h_free", p)
    elif kind == "sized":
        k, v = c.attempt("h_free_sized", p, size)
    elif kind == "aligned":
        k, v = c.attempt("h_free_aligned_sized", p, 64, size)
    elif kind == "delete":
        k, v = c.attempt("_ZdlPv", p)
    elif kind == "delete[]":
        k, v = c.attempt("_ZdaPv", p)
    if k != "ret":
        return k
    c.prove(X.eq(32, c.errno(), e), "%s of %s changed errno" % ("free" if kind == "free" else kind, tag))
    return k


SIZES = dict(small=20, mid=1000, page=4096, big=16000, zero=0, large=300000, huge=64 << 20, al=None)


def alloc(c, k):
    if k == "al":
        p = c.call("h_aligned_alloc", 65536, 70000)
    else:
        p = c.call("h_malloc", SIZES[k])
    p = conc(c, p)
    if p == 0:
        c.fail("allocation failed although memory is available")
    return p


def errno_hist(c):
    """every sequence of allocations and frees; the frees of every block keep errno"""
    P = c.params
    hm, M = c.hm, c.M
    c.symbolic_random(False)
    live = []
    log = c.info["ops"] = []
    for k, n in P.get("pre", ()):
        for i in range(n):
            live.append((alloc(c, k), k))
    menu = P["menu"]
    for i in range(P["steps"]):
        ops = [o for o in menu if not o.startswith("f") or live]
        o = ops[c.pick("op", len(ops))]
        log.append(o)
        if o == "t":
            c.call("h_malloc_trim", 0)
        elif o == "f0" or o == "f1":
            p, k = live.pop(0 if o == "f0" else -1)
            free_one(c, p, P.get("kind", "free"), SIZES[k], k)
        elif o == "fa":
            while live:
                p, k = live.pop()
                free_one(c, p, P.get("kind", "free"), SIZES[k], k)
        elif o == "null":
            free_one(c, 0, P.get("kind", "free"), 0, "a null pointer")
        else:
            live.append((alloc(c, o), o))
    while live:
        p, k = live.pop()
        free_one(c, p, P.get("kind", "free"), SIZES[k], k)
    c.reach("end")


def errno_refused(c):
    """one or two kernel calls of a free refused; labels fail"""
    P = c.params
    hm, M = c.hm, c.M
    c.symbolic_random(False)
    live = []
    for k, n in P["pre"]:
        for i in range(n):
            live.append((alloc(c, k), k))
    for i in range(P.get("freed", 0)):
        c.call("h_free", live.pop(0)[0])
    at = c.pick("refuse", P["n"])
    both = c.pick("again", 2) if P.get("twice", 1) else 0
    err = [ENOMEM, EINVAL][c.pick("error", 2)] if P.get("other") else ENOMEM
    n = [0]
    hit = []
    fall = [c.pick("label", 2)] if P.get("label") else [0]
    if fall[0]:
        M.ghost["prctl"] = lambda M, a: ENOMEM if c.params.get("label") == 1 else EINVAL

    def fault(M, name, args):
        n[0] += 1
        if n[0] - 1 == at or both and n[0] - 1 == at + 1:
            hit.append(name)
            return err
        return 0
    M.ghost["fault"] = fault
    for p, k in live:
        r = free_one(c, p, P.get("kind", "free"), SIZES[k], k)
        if r == "fatal":
            if err == ENOMEM and not P.get("purge_fatal"):
                c.fail("a refused kernel call makes free fail")
            c.reach("fatal")
            raise Stop
        if r != "ret":
            c.fail("free: unexpected %s" % r)
    for h in hit:
        c.reach("refused:" + h)
    c.reach("end")


# ------------------------------------------------------------------ fatal errors
class Writes:
    """interrupts and shortens writes to standard error"""

    def __init__(self, c, n, kinds, full):
        self.c, self.left, self.kinds, self.full = c, n, kinds, full
        self.hits = 0
        self.hard = self.closed = 0
        self.fds = set()
        self.calls = 0
        c.M.ghost["write"] = self

    def __call__(self, M, fd, buf, n):
        c = self.c
        fd = M.val(fd)
        buf = M.choose(buf) if isinstance(buf, E) else buf
        self.fds.add(fd)
        self.calls += 1
        if self.calls > 200:
            from hmsym.machine import Hang
            raise Hang("endless writes")
        if n == 0:
            return 0
        if self.closed:
            env.set_errno(M, 9)
            return X.MASK[64]
        if self.left:
            ks = ["full"] + [k for k in self.kinds if k != "short" or n > 1]
            k = ks[c.pick("write", len(ks))]
            if k != "full":
                self.left -= 1
                self.hits += 1
                if k == "eintr":
                    env.set_errno(M, EINTR)
                    env.ev(M, "write", 0, EINTR)
                    return X.MASK[64]
                if k == "closed":
                    self.hard = self.closed = 1
                    env.set_errno(M, 9)
                    env.ev(M, "write", 0, 9, 1)
                    return X.MASK[64]
                if k == "hard":
                    self.hard = 1
                    env.set_errno(M, 5)
                    env.ev(M, "write", 0, 5)
                    return X.MASK[64]
                if self.full:
                    m = M.choose(c.size("bytes", 1, n - 1))
                else:
                    o = sorted({1, n // 2, n - 1} - {0})
                    m = o[c.pick("bytes", len(o))]
                self.out(M, fd, buf, m)
                env.ev(M, "write", m, 0)
                return m
        self.out(M, fd, buf, n)
        return n

    def out(self, M, fd, buf, n):
        M.stderr.append((fd, bytes(M.val(M.load(buf + i, 1)) for i in range(n))))


def flip(c, p, n=1):
    c.wr(p, X.xor(8, c.rd(p, 1), 0x55) if False else 0x55, 1)


def misuse(c, kind):
    """commit one error; returns the outcome"""
    hm, M = c.hm, c.M
    A = c.attempt
    m = lambda n: conc(c, c.call("h_malloc", n))
    if kind == "double-free":
        p = m(20)
        c.call("h_free", p)
        return A("h_free", p)
    if kind == "double-free-zero":
        p = m(0)
        c.call("h_free", p)
        return A("h_free", p)
    if kind == "interior":
        return A("h_free", m(100) + 16)
    if kind == "unaligned":
        return A("h_free", m(100) + 1)
    if kind == "foreign":
        return A("h_free", USER_BASE + 64)
    if kind == "large-interior":
        return A("h_free", m(300000) + 4096)
    if kind == "large-double":
        p = m(300000)
        c.call("h_free", p)
        return A("h_free", p)
    if kind == "canary":
        p = m(20)
        n = class_usable(hm, doc_class(hm, 20))
        for i in range(8):
            c.wr(p + n + i, X.xor(8, c.raw(p + n + i, 1), 0xff), 1)
        return A("h_free", p)
    if kind == "sized":
        return A("h_free_sized", m(20), 4000)
    if kind == "sized-large":
        return A("h_free_sized", m(300000), 20)
    if kind == "realloc-foreign":
        return A("h_realloc", USER_BASE, 300000)
    if kind == "realloc-freed":
        p = m(20)
        c.call("h_free", p)
        return A("h_realloc", p, 100)
    if kind == "usable-freed":
        p = m(20)
        c.call("h_free", p)
        return A("h_malloc_usable_size", p)
    if kind == "usable-foreign":
        return A("h_malloc_usable_size", USER_BASE)
    if kind == "object-freed":
        p = m(20)
        c.call("h_free", p)
        return A("h_malloc_object_size", p)
    if kind == "never-used":
        p = m(20)
        return A("h_free", p + hm.real)
    if kind in ("mmap", "mprotect"):
        M.ghost["fault"] = lambda M, name, args: EINVAL if name == kind else 0
        return A("h_malloc", 300000)
    if kind == "munmap":
        p = m(64 << 20)
        M.ghost["fault"] = lambda M, name, args: EINVAL if name in ("munmap", "mmap_fixed") else 0
        return A("h_free", p)
    if kind == "mremap":
        p = m(64 << 20)
        M.ghost["fault"] = lambda M, name, args: EINVAL if name == "mremap" else 0
        return A("h_realloc", p, 200 << 20)
    if kind == "madvise":
        p = m(300000)
        M.ghost["fault"] = lambda M, name, args: ENOMEM if name in ("munmap", "mmap_fixed") else EINVAL if name == "madvise" else 0
        return A("h_free", p)
    if kind == "wrap":
        return A("h_malloc_iterate", 0, 0, 0, 0)
    raise Exception(kind)


INIT = ("init-pagesize", "init-getrandom", "init-mmap", "init-atfork", "init-mutex", "init-mprotect")


def misuse_init(c, kind):
    M = c.M
    if kind == "init-pagesize":
        M.ghost["pagesize"] = 16384
    elif kind == "init-getrandom":
        def gr(M, buf, k, flags):
            env.ev(M, "getrandom", k, 0, X.MASK[64], 38, [])
            env.set_errno(M, 38)
            return X.MASK[64]
        M.ghost["getrandom"] = gr
    elif kind == "init-atfork":
        M.ghost["atfork_fail"] = ENOMEM
    elif kind == "init-mutex":
        M.ghost["mutex_init_fail"] = lambda M, m: EINVAL
    elif kind == "init-mmap":
        M.ghost["fault"] = lambda M, name, args: ENOMEM if name == "mmap" else 0
    else:
        M.ghost["fault"] = lambda M, name, args: ENOMEM if name == "mprotect" else 0
    return c.attempt("h_malloc", 20)


PREFIX = "fatal allocator error: "


def fatal(c):
    P = c.params
    hm, M = c.hm, c.M
    c.symbolic_random(False)
    kind = P["kinds"][c.pick("kind", len(P["kinds"]))]
    c.info["kind"] = kind
    w = Writes(c, P["n"], P["writes"], P.get("full"))
    r, v = misuse_init(c, kind) if kind in INIT else misuse(c, kind)
    out = "".join(s.decode("latin1") for f, s in M.stderr if f == 2)
    if r == "ret":
        c.fail("%s: the error is not detected" % kind)
    if r == "hang":
        c.fail("%s: the message is never finished" % kind)
    if r != "fatal":
        c.fail("%s: unexpected %s" % (kind, r))
    if w.fds - {2}:
        c.fail("%s: message written to descriptor %s" % (kind, sorted(w.fds - {2})))
    if not w.hard:
        if not out.startswith(PREFIX) or not out.endswith("\n") or out.count("\n") != 1 or len(out) < len(PREFIX) + 5 or out.count(PREFIX) != 1:
            c.fail("%s: the message is not complete: %r" % (kind, out))
        body = out[len(PREFIX):-1]
        if any(not 32 <= ord(x) < 127 for x in body):
            c.fail("%s: the message contains other memory" % kind)
        if kind in REASON and body != REASON[kind]:
            c.fail("%s: different message when writes are disturbed: %r" % (kind, out))
        REASON.setdefault(kind, body) if not w.hits else None
        c.reach("complete")
    else:
        if not (PREFIX + "x" * 200)[:len(out)].startswith(out[:len(PREFIX)]):
            c.fail("%s: garbled message: %r" % (kind, out))
        c.reach("hard")
    if w.hits == P["n"]:
        c.reach("disturbed")
    c.reach("kind:" + kind)


REASON = {}


def tasks(tier, seed):
    T = tier == "thorough"
    B = 240 if T else 40
    r = []
    SN = Cfg("default", SLOT_RANDOMIZE=False, EXTENDED_SIZE_CLASSES=False, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, GUARD_SIZE_DIVISOR=100000,
             REGION_QUARANTINE_RANDOM_LENGTH=1, REGION_QUARANTINE_QUEUE_LENGTH=1, name="no-ext,no-slab-quarantine,region-quarantine-1-1")
    SL = Cfg("default", extra=("-DLABEL_MEMORY",), SLOT_RANDOMIZE=False, EXTENDED_SIZE_CLASSES=False, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, GUARD_SIZE_DIVISOR=100000,
             REGION_QUARANTINE_RANDOM_LENGTH=1, REGION_QUARANTINE_QUEUE_LENGTH=1, name="labels,no-ext,no-slab-quarantine,region-quarantine-1-1")
    R0 = Cfg("light", REGION_QUARANTINE_RANDOM_LENGTH=0, REGION_QUARANTINE_QUEUE_LENGTH=0, name="light,no-region-quarantine")
    CX = Cfg("default", cxx=True, SLOT_RANDOMIZE=False, SLAB_QUARANTINE_RANDOM_LENGTH=1, SLAB_QUARANTINE_QUEUE_LENGTH=1, name="default,c++,quarantine-1-1")
    n = 5 if T else 3
    for cfg in (SN, D, L) if T else (SN, D):
        r.append(Task("errno/free/" + cfg.name, cfg, errno_hist, dict(steps=n, menu=["small", "zero", "large", "f0", "f1", "t"]), budget=B, reach=["end"]))
        r.append(Task("errno/free-2/" + cfg.name, cfg, errno_hist, dict(steps=n, menu=["big", "huge", "al", "f0", "fa", "null"]), budget=B, reach=["end"]))
    for k in ("sized", "aligned"):
        r.append(Task("errno/" + k, SN, errno_hist, dict(steps=2, kind=k, menu=["small", "zero", "large", "f0", "null", "mid"]), budget=B, reach=["end"]))
    for k in ("delete", "delete[]"):
        r.append(Task("errno/" + k, CX, errno_hist, dict(steps=2, kind=k, menu=["small", "zero", "large", "f0", "null"]), budget=B, reach=["end"]))
    r.append(Task("errno/uninitialized", D, errno_hist, dict(steps=1, menu=["null"]), boot=False, budget=B, reach=["end"]))
    r.append(Task("refused/slabs", SN, errno_refused, dict(pre=[("big", 6)], n=8), budget=B, reach=["end", "refused:mmap_fixed"]))
    r.append(Task("refused/slabs-mid", SN, errno_refused, dict(pre=[("page", 40 if T else 20)], n=10), budget=B, reach=["end"]))
    r.append(Task("refused/slabs-other", SN, errno_refused, dict(pre=[("big", 6)], n=4, other=1), budget=B, reach=["end"]))
    r.append(Task("refused/large", SN, errno_refused, dict(pre=[("large", 4)], n=8), budget=B, reach=["end", "refused:munmap", "refused:mmap_fixed"]))
    r.append(Task("refused/large-full", SN, errno_refused, dict(pre=[("large", 6)], freed=3, n=6), budget=B, reach=["end", "refused:munmap", "refused:mmap_fixed"]))
    r.append(Task("refused/huge", SN, errno_refused, dict(pre=[("huge", 2), ("al", 2)], n=6), budget=B, reach=["end", "refused:munmap"]))
    r.append(Task("refused/no-region-quarantine", R0, errno_refused, dict(pre=[("large", 2), ("al", 1)], n=6), budget=B, reach=["end", "refused:munmap"]))
    r.append(Task("refused/labels", SL, errno_refused, dict(pre=[("big", 6), ("large", 3)], n=9, label=1), budget=B, reach=["end"]))
    r.append(Task("refused/labels-2", SL, errno_refused, dict(pre=[("big", 6), ("large", 3)], n=9, label=2, twice=0), budget=B, reach=["end"]))
    ks = ["double-free", "double-free-zero", "interior", "unaligned", "foreign", "large-interior", "large-double", "canary", "sized", "sized-large", "realloc-foreign", "realloc-freed", "usable-freed",
          "usable-foreign", "object-freed", "never-used", "mmap", "mprotect", "munmap", "mremap", "madvise"]
    r.append(Task("fatal/plain", SN, fatal, dict(kinds=ks, n=0, writes=[]), budget=B, reach=["complete"] + ["kind:" + k for k in ks]))
    r.append(Task("fatal/plain/light", L, fatal, dict(kinds=[k for k in ks if k not in ("canary", "mremap", "munmap", "madvise")], n=0, writes=[]), budget=B, reach=["complete"]))
    AN = android("android,no-ext,no-slab-quarantine,region-quarantine-1-1", **SN.over)
    r.append(Task("fatal/android", AN, fatal, dict(kinds=ks, n=0, writes=[]), budget=B, reach=["complete"] + ["kind:" + k for k in ks]))
    r.append(Task("fatal/one", SN, fatal, dict(kinds=ks[:1] + ["mmap"], n=1, writes=["eintr", "short", "hard", "closed"], full=1), budget=B, reach=["complete", "disturbed", "hard"]))
    for k in ks if T else ks[::5]:
        r.append(Task("fatal/disturbed/" + k, SN, fatal, dict(kinds=[k], n=3 if T else 2, writes=["eintr", "short", "hard", "closed"]), budget=B, reach=["complete", "disturbed", "hard"]))
    if T:
        r.append(Task("fatal/two", SN, fatal, dict(kinds=ks[:1], n=2, writes=["short"], full=1), budget=B, reach=["complete", "disturbed"]))
        r.append(Task("fatal/many", SN, fatal, dict(kinds=["foreign"], n=6, writes=["eintr", "short"]), budget=B, reach=["complete", "disturbed"]))
    for k in INIT:
        cfg = Cfg("default", native=False, name="default,page-size") if k == "init-pagesize" else D
        r.append(Task("fatal/" + k, cfg, fatal, dict(kinds=[k], n=1, writes=["eintr", "short"]), boot=False, budget=B, reach=["complete", "disturbed"]))
    return r
