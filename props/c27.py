from hmsym.explore import Stop
from hmsym.runner import Cfg, Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from hmsym import env, fam, expr as X
from hmsym.expr import E
from hmsym.machine import CxxThrow, ENOMEM, Hang

PROP = Prop("C27", bounds=["every operator new: every size of small, medium and large classes and of over-aligned requests, alignments 1 to 64 KiB; every operator delete of the blocks: the block and only the block is released",
                           "up to 3 (quick) or 5 (thorough) handler calls in a row, each returning, making memory available, throwing bad_alloc or a class derived from it, uninstalling or replacing itself, for every form; refused kernel requests, impossible sizes, exhausted classes"],
            assumptions=["the new handler meets the requirements of the C++ standard: it makes memory available, throws bad_alloc or a derived class, or gets replaced before it returns in vain forever"])
PLAIN = ("_Znwm", "_Znam")
NOTHROW = ("_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t")
ALIGNED = ("_ZnwmSt11align_val_t", "_ZnamSt11align_val_t")
ALIGNED_NT = ("_ZnwmSt11align_val_tRKSt9nothrow_t", "_ZnamSt11align_val_tRKSt9nothrow_t")
ALL = PLAIN + NOTHROW + ALIGNED + ALIGNED_NT
DEL = ("_ZdlPv", "_ZdaPv", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t", "_ZdlPvm", "_ZdaPvm")
DELA = ("_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvSt11align_val_tRKSt9nothrow_t", "_ZdaPvSt11align_val_tRKSt9nothrow_t", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t")
NT = 0x600000000800      # the nothrow tag object


def args_new(fn, s, al):
    a = [s]
    if "align_val" in fn:
        a.append(al)
    if "nothrow" in fn:
        a.append(NT)
    return a


def args_del(fn, p, s, al):
    a = [p]
    if "Pvm" in fn:
        a.append(s)
    if "align_val" in fn:
        a.append(al)
    if "nothrow" in fn:
        a.append(NT)
    return a


def name(fn):
    return {"_Znwm": "operator new", "_Znam": "operator new[]", "_ZdlPv": "operator delete", "_ZdaPv": "operator delete[]"}[next(k for k in ("_Znwm", "_Znam", "_ZdlPv", "_ZdaPv") if fn.startswith(k))] + \
        (", sized" if "Pvm" in fn else "") + (", aligned" if "align_val" in fn else "") + (", nothrow" if "nothrow" in fn else "")


def forms(fn):
    """delete forms that match a new form"""
    arr = fn.startswith("_Zna")
    return [d for d in (DELA if "align_val" in fn else DEL) if d.startswith("_Zda") == arr]


def released(c, p, what):
    """the block is no longer in use"""
    hm = c.hm
    k, v = c.attempt("h_malloc_object_size", p)
    if k == "ret":
        if isinstance(p, int) and hm.slab_start <= p < hm.slab_end:
            c.fail("%s did not release the block" % what)
        c.prove(X.eq(64, v, X.MASK[64]), "%s did not release the block" % what)
    elif k != "fatal":
        c.fail("malloc_object_size: unexpected %s" % k)


def pairs(c):
    """new, delete with every matching form"""
    P = c.params
    hm, M = c.hm, c.M
    h = Heap(c)
    c.symbolic_random(False)
    # neighbours that have to survive
    for n in P.get("others", (20, 1000, 0, 300000)):
        b = h.malloc(n)
        h.mark(b)
    if P.get("sym", 1):
        fresh(c, *([P["cls"]] if isinstance(P["cls"], int) else []), region=True)
    fns = P["fns"]
    fn = fns[c.pick("new", len(fns))]
    al = P.get("al", (16,))
    al = al[c.pick("align", len(al))] if "align_val" in fn else 16
    s = fam.sym_req(c, P["cls"]) if "req" not in P else P["req"]
    e = c.var("errno", 32)
    c.set_errno(e)
    p = c.call(fn, *args_new(fn, s, al))
    c.info.update(fn=fn, s=s, al=al, p=p)
    c.prove(X.ne(64, p, 0), "%s returns null although memory is available" % name(fn))
    c.prove(X.eq(64, X.and_(64, p, (al if "align_val" in fn else 16) - 1), 0), "%s: wrong alignment" % name(fn))
    u = c.call("h_malloc_usable_size", p)
    c.prove(X.uge(64, u, s), "%s: block smaller than requested" % name(fn))
    p = M.choose(p) if isinstance(p, E) else p
    if P["cls"] != 0:
        hi = M.choose(u) if isinstance(u, E) else u
        for o in (0, hi - 1):
            c.wr(p + o, 0x77, 1)
    ds = forms(fn)
    d = ds[c.pick("delete", len(ds))]
    c.info["delete"] = d
    k, v = c.attempt(d, *args_del(d, p, s, al))
    if k != "ret":
        c.fail("%s of a block from %s: unexpected %s" % (name(d), name(fn), k))
    h.verify_all()
    for b in h.blocks:
        k, v = c.attempt("h_malloc_object_size", b.p)
        if k != "ret":
            c.fail("%s released another block: %s %x" % (name(d), k, b.p))
        c.prove(X.eq(64, v, c.call("h_malloc_usable_size", b.p)), "%s released another block" % name(d))
    if not c.pick("query", 2):
        released(c, p, name(d))
    else:
        # the block is released exactly once
        k, v = c.attempt(d, *args_del(d, p, s, al))
        if k == "ret":
            c.fail("%s accepts a block twice" % name(d))
        c.reach("twice")
    c.reach("end")


def null(c):
    P = c.params
    h = Heap(c)
    if P.get("boot", 1):
        b = h.malloc(100)
        h.mark(b)
    ds = DEL + DELA
    d = ds[c.pick("delete", len(ds))]
    s = c.var("s", 64)
    k, v = c.attempt(d, *args_del(d, 0, s, 1 << c.pick("al", 16)))
    if k != "ret":
        c.fail("%s of a null pointer: unexpected %s" % (name(d), k))
    h.verify_all()
    c.reach("end")


H1, H2 = 0x7d0000010000, 0x7d0000020000


class Handler:
    def __init__(self, c, acts, limit):
        self.c, self.acts, self.limit = c, acts, limit
        self.cur = 0
        self.calls = 0
        self.fail = True       # requests are refused
        self.thrown = 0
        self.over = None       # why no further handler call is allowed
        self.need = 0          # a handler call is due
        self.held = []
        M = c.M
        self.TI = M.prog.sym.get("_ZTISt9bad_alloc", 0xbadbad0)
        M.ghost["derived"] = {(self.TI, 0xdeda110c)}
        M.ghost["get_new_handler"] = lambda M: (0, H1, H2)[self.cur]
        M.ghost["fnptr"] = {H1: lambda M, *a: self.run(1), H2: lambda M, *a: self.run(2)}
        M.ghost["fault"] = lambda M, n, a: ENOMEM if self.fail and n in ("mmap", "mprotect") else 0
        self.log = c.info["handler"] = []

    def install(self, i):
        self.cur = i
        self.c.M.events.append(("new_handler", i))

    def run(self, i):
        c, M = self.c, self.c.M
        M.events.append(("handler", i))
        self.calls += 1
        self.bad = self.bad if hasattr(self, "bad") else None
        if i != self.cur:
            self.bad = self.bad or "a handler that is not installed is called"
        if self.thrown:
            self.bad = self.bad or "the handler is called again after it threw"
        if not self.fail:
            self.bad = self.bad or "the handler is called although memory is available"
        a = self.acts[c.pick("handler", len(self.acts))] if self.calls < self.limit else "throw"
        if self.calls > self.limit:
            raise Hang("handler called again and again")
        self.log.append(a)
        if a == "recover" or a == "uninstall+recover":
            self.fail = False
        if a == "free":
            c.call("h_free", self.held.pop())
            self.fail = False
        if a == "nested":
            f, self.fail = self.fail, False
            p = c.call("_Znwm", 100)
            c.prove(X.ne(64, p, 0), "nested operator new returns null although memory is available")
            self.fail = f
        if a.startswith("uninstall"):
            self.install(0)
        if a == "replace":
            self.install(3 - i)
        how = {"throw": 1, "derived": 2}.get(a, 0)
        M.events.append(("handled", how))
        if how:
            self.thrown = 1
            raise CxxThrow(self.TI if how == 1 else 0xdeda110c)


def outcome(c, w, fn, k, v, s, impossible=False):
    nt = "nothrow" in fn
    bad = getattr(w, "bad", None)
    if bad:
        c.fail("%s: %s" % (name(fn), bad))
    if k == "hang":
        c.fail("%s does not end" % name(fn))
    ok = not w.fail and not impossible and not w.thrown
    if ok:
        if k != "ret":
            c.fail("%s: unexpected %s although the handler made memory available" % (name(fn), k))
        c.prove(X.ne(64, v, 0), "%s returns null although the handler made memory available" % name(fn))
        c.reach("success")
        return True
    if nt:
        if k != "ret":
            c.fail("%s: unexpected %s when out of memory" % (name(fn), k))
        c.prove(X.eq(64, v, 0), "%s returns a block although memory was refused" % name(fn))
    else:
        if k == "ret":
            c.fail("%s returns when out of memory" % name(fn))
        if k != "throw":
            c.fail("%s: unexpected %s when out of memory" % (name(fn), k))
        if v not in (w.TI, 0xdeda110c):
            c.fail("%s throws something else than bad_alloc" % name(fn))
    if w.cur and not w.thrown:
        c.fail("%s gives up although a handler is installed" % name(fn))
    c.reach("failure")
    return False


def protocol(c):
    """every sequence of handler behaviours"""
    P = c.params
    hm, M = c.hm, c.M
    c.symbolic_random(False)
    h = Heap(c)
    for n in (20, 300000):
        b = h.malloc(n)
        h.mark(b)
    w = Handler(c, P["acts"], P["limit"])
    fns = P["fns"]
    fn = fns[c.pick("form", len(fns))]
    al = 1
    if "align_val" in fn:
        als = P.get("al", (8192,))
        al = als[c.pick("align", len(als))]
    s = c.size("s", *P["size"])
    c.info.update(fn=fn, s=s, al=al)
    imp = P.get("impossible", False)
    if imp:
        w.fail = False
        M.ghost["fault"] = lambda M, n, a: 0
        w.fail = True
    w.install(c.pick("installed", 2) if not P.get("always") else 1)
    k, v = c.attempt(fn, *args_new(fn, s, al))
    ok = outcome(c, w, fn, k, v, s, imp)
    if w.calls:
        c.reach("handler")
    w.fail = False
    if ok:
        u = c.call("h_malloc_usable_size", v)
        c.prove(X.uge(64, u, s), "%s: block smaller than requested after handler calls" % name(fn))
        c.prove(X.eq(64, X.and_(64, v, (al if "align_val" in fn else 16) - 1), 0), "%s: wrong alignment after handler calls" % name(fn))
        p = M.choose(v) if isinstance(v, E) else v
        d = forms(fn)[c.pick("delete", len(forms(fn)))] if P.get("dels") else forms(fn)[-1]
        k, v = c.attempt(d, *args_del(d, p, s, al))
        if k != "ret":
            c.fail("%s of a block from %s: unexpected %s" % (name(d), name(fn), k))
    # afterwards everything works
    b = h.malloc(20)
    h.verify_all()
    c.ok_kernel()
    c.reach("end")


def exhausted_setup(c):
    """a class whose range is used up"""
    ps = []
    while 1:
        p = c.call("h_malloc", c.params["req"])
        if p == 0:
            return ps
        ps.append(p)


def exhausted(c):
    P = c.params
    M = c.M
    ps = list(P["st"])
    c.symbolic_random(False)
    w = Handler(c, ["free", "throw", "uninstall", "return"], P["limit"])
    w.held = ps[:]
    M.ghost["fault"] = lambda M, n, a: 0
    fns = P["fns"]
    fn = fns[c.pick("form", len(fns))]
    c.info["fn"] = fn
    w.install(c.pick("installed", 2))
    k, v = c.attempt(fn, *args_new(fn, P["req"], 16))
    outcome(c, w, fn, k, v, P["req"])
    c.reach("end")


def tasks(tier, seed):
    T = tier == "thorough"
    B = 240 if T else 40
    r = []
    CX = Cfg("default", cxx=True, EXTENDED_SIZE_CLASSES=False, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, REGION_QUARANTINE_RANDOM_LENGTH=1, REGION_QUARANTINE_QUEUE_LENGTH=1,
             GUARD_SIZE_DIVISOR=100000, SLOT_RANDOMIZE=False, name="c++,no-ext,no-slab-quarantine,region-quarantine-1-1")
    CD = Cfg("default", cxx=True, GUARD_SIZE_DIVISOR=100000, name="c++,default")
    CL = Cfg("light", cxx=True, GUARD_SIZE_DIVISOR=100000, name="c++,light")
    CE = Cfg("default", cxx=True, EXTENDED_SIZE_CLASSES=False, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, CLASS_REGION_SIZE=1 << 20, SLOT_RANDOMIZE=False, N_ARENA=1, native=True,
             name="c++,class-range-1MiB")
    AL = (1, 2, 4, 8, 16)
    BIG = (8192, 65536)
    for cfg in (CX, CD, CL) if T else (CX,):
        for k in list(range(0, 37, 1 if cfg is CX else 4)) if T else (0, 1, 2, 7, 16, 24, 36):
            r.append(Task("pair/%s/%d" % (cfg.name, k), cfg, pairs, dict(cls=k, fns=PLAIN + NOTHROW + ALIGNED + ALIGNED_NT, al=AL if T else (1, 8, 16), sym=cfg is CX), budget=B, reach=["end", "twice"]))
        for k in (0, 3, 9) if T else (0, 2):
            r.append(Task("pair/%s/large-%d" % (cfg.name, k), cfg, pairs, dict(cls=("L", k), fns=ALL, al=AL if T else (1, 16), sym=cfg is CX), budget=B, reach=["end", "twice"]))
    for cfg in (CX, CD, CL):
        for al in (32, 64, 256, 1024, 4096, 8192, 65536, 1 << 21) if T else (64, 4096, 65536):
            for req in (0, 1, 100, 5000, 20000, 300000) if T else (1, 5000, 300000):
                if cfg is not CX and not T and al != 64:
                    continue
                r.append(Task("pair/%s/align-%d/%d" % (cfg.name, al, req), cfg, pairs, dict(cls="x", req=req, fns=ALIGNED + ALIGNED_NT, al=(al,), sym=0), budget=B, reach=["end", "twice"]))
    r.append(Task("null/default", CX, null, {}, budget=B, reach=["end"]))
    r.append(Task("null/uninitialized", CX, null, dict(boot=0), boot=False, budget=B, reach=["end"]))
    acts = ["return", "recover", "throw", "derived", "uninstall", "uninstall+recover", "replace"]
    n = 5 if T else 3
    for i, fns in enumerate((PLAIN, NOTHROW, ALIGNED, ALIGNED_NT)):
        r.append(Task("handler/refused/%d" % i, CX, protocol, dict(fns=fns, acts=acts, limit=n, size=(200000, 200000)), budget=B, reach=["end", "handler", "success", "failure"]))
        r.append(Task("handler/refused-sizes/%d" % i, CX, protocol, dict(fns=fns, acts=["recover", "throw", "uninstall"], limit=2, size=(262145, 327680), dels=1), budget=B, reach=["end", "handler", "success", "failure"]))
        r.append(Task("handler/impossible/%d" % i, CX, protocol, dict(fns=fns, acts=["return", "throw", "derived", "uninstall", "replace"], limit=n, size=(1 << 47, X.MASK[64]), impossible=True), budget=B, reach=["end", "handler", "failure"]))
        r.append(Task("handler/nested/%d" % i, CX, protocol, dict(fns=fns, acts=["nested", "recover"], limit=3, size=(300000, 300000), always=1), budget=B, reach=["end", "handler", "success", "failure"]))
        r.append(Task("handler/exhausted/%d" % i, CE, exhausted, dict(fns=fns, limit=n, req=16000), setup=exhausted_setup, budget=B, reach=["end", "success", "failure"]))
        if i >= 2:
            r.append(Task("handler/refused-small/%d" % i, CX, protocol, dict(fns=fns, acts=acts, limit=2, size=(5000, 5000), al=(8192, 65536)), budget=B, reach=["end", "handler", "success", "failure"]))
        r.append(Task("handler/refused-slab/%d" % i, CX, protocol, dict(fns=fns, acts=acts, limit=2, size=(6000, 6000), al=(16, 64)), budget=B, reach=["end", "handler", "success", "failure"]))
    return r
