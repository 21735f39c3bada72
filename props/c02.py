from hmsym.runner import Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from hmsym.conc import Sched
from hmsym import fam, expr as X

PROP = Prop("C02", bounds=["pointer: every 64-bit value inside the first slabs of a size class, its reserved range, the rest of the slab region, and outside it",
                           "quarantine: up to 3 blocks of a slab freed in arbitrary order through quarantines of length 0 to 2, then any of them again",
                           "races: two threads release the same block, all schedules at lock, unlock and system call granularity with up to 2 (quick) or 3 (thorough) preemptions",
                           "heap: 2 live and 2 freed blocks per class; region table with up to 4 live large blocks"],
            assumptions=["bounded random draws accepted at the first attempt (others: C22)"])
FNS = ("h_free", "h_malloc_usable_size", "h_realloc", "h_free_sized")


def setup(c):
    """two live, two freed blocks of the class, three large blocks (one freed)"""
    cls = c.params["cls"]
    r = class_range(c.hm, cls)[1]
    live = [c.call("h_malloc", r) for _ in range(c.params.get("nlive", 3))]
    dead = [c.call("h_malloc", r) for _ in range(2)]
    for p in dead:
        c.call("h_free", p)
    big = [c.call("h_malloc", s) for s in (200000, 300000, 300000, 5000000)]
    c.call("h_free", big[1])
    return dict(live=live, dead=dead, big=[big[0], big[2], big[3]], bigdead=[big[1]])


def attempt(c, p, live):
    """call a releasing or querying function on p and require a fatal error"""
    hm, M = c.hm, c.M
    fn = FNS[c.pick("fn", len(FNS))] if "fn" not in c.params else c.params["fn"]
    c.info["p"] = p
    c.info["fn"] = fn
    if fn == "h_realloc":
        # to a different size class
        args = (p, c.params.get("rsize", 700))
    elif fn == "h_free_sized":
        args = (p, c.size("es", 0, 4096))
    else:
        args = (p,)
    k, v = c.attempt(fn, *args)
    if k == "segv" and fn == "h_realloc" and c.params.get("small", 1):
        c.reach("fault")
        return
    if k != "fatal":
        c.fail("%s on a pointer that is not a live block was not detected (%s)" % (fn, k))
    c.reach("fatal")
    c.reach(fn)


def inside(c):
    """arbitrary pointer inside the part of the class range that slabs come from"""
    st, hm = c.params["st"], c.hm
    cls = c.params["cls"]
    allp = st["live"] + st["dead"]
    s0 = min(allp) & ~4095
    ss = hm.slab_size(cls)
    # slab boundaries: the class hands out slabs from a page aligned start
    lo = st["live"][0] & ~4095
    lo, hi = min(p & ~4095 for p in allp) - c.params.get("before", 0), max(p for p in allp) + c.params.get("after", 0)
    p = X.add(64, lo, c.size("off", 0, hi - lo))
    for l in st["live"]:
        c.assume(X.ne(64, p, l))
    attempt(c, p, st["live"])


def farther(c):
    """arbitrary pointer anywhere in the reserved range of the class outside the used slabs"""
    st, hm = c.params["st"], c.hm
    cls = c.params["cls"]
    base = hm.slab_start + cls * hm.real
    p = X.add(64, base, c.size("off", 0, hm.real - 1))
    a = min(st["live"] + st["dead"]) - hm.slab_size(cls)
    b = max(st["live"] + st["dead"]) + hm.slab_size(cls)
    c.assume(X.bor(X.ult(64, p, a), X.ult(64, b, p)))
    attempt(c, p, st["live"])


def outside(c):
    """arbitrary pointer outside the slab region"""
    st, hm = c.params["st"], c.hm
    p = c.var("p", 64)
    c.assume(X.ne(64, p, 0))
    c.assume(X.bor(X.ult(64, p, hm.slab_start), X.ule(64, hm.slab_end, p)))
    for b in st["big"]:
        c.assume(X.ne(64, p, b))
    attempt(c, p, st["big"])


def near_big(c):
    """interior and neighbouring addresses of large blocks, and the freed one"""
    st, hm = c.params["st"], c.hm
    l = st["big"] + st["bigdead"]
    b = l[c.pick("big", len(l))]
    p = X.add(64, b, X.sub(64, c.size("d", 0, 1 << 20), 1 << 19))
    c.assume(X.bor(X.ult(64, p, hm.slab_start), X.ule(64, hm.slab_end, p)))
    for x in st["big"]:
        c.assume(X.ne(64, p, x))
    attempt(c, p, st["big"])


def uninit(c):
    p = c.var("p", 64)
    c.assume(X.ne(64, p, 0))
    attempt(c, p, [])


def double(c):
    """free, then a few operations, then free again"""
    P = c.params
    hm = c.hm
    cls = P["cls"]
    lo, hi = class_range(hm, cls)
    n = P.get("n", 3)
    ps = [c.call("h_malloc", hi) for _ in range(n)]
    if P.get("sym"):
        fresh(c, cls)
    v = c.pick("victim", n)
    c.call("h_free", ps[v])
    others = [p for i, p in enumerate(ps) if i != v]
    for i in range(P.get("between", 1)):
        o = c.pick("op", 3)
        if o == 0 and others:
            c.call("h_free", others.pop(0))
        elif o == 1:
            c.call("h_malloc_trim", 0)
    c.info["victim"] = ps[v]
    attempt(c, ps[v], [])


def double_large(c):
    P = c.params
    s = c.size("s", *large_range(c.hm, P.get("k", 2), large_classes(c.hm, 1 << 30)))
    n = 3
    ps = [c.call("h_malloc", s) for _ in range(n)]
    v = c.pick("victim", n)
    how = c.pick("how", 2)
    if how:
        c.call("h_realloc", ps[v], 100)
    else:
        c.call("h_free", ps[v])
    others = [p for i, p in enumerate(ps) if i != v]
    for i in range(P.get("between", 2)):
        o = c.pick("op", 3)
        if o == 0 and others:
            c.call("h_free", others.pop(0))
        elif o == 1:
            c.call("h_malloc", 250000)
    attempt(c, ps[v], [])


def quar_setup(c):
    """one full slab, in address order"""
    cls = c.params["cls"]
    r = class_range(c.hm, cls)[1]
    return sorted(c.call("h_malloc", r) for _ in range(c.hm.slots[cls] - c.params.get("free", 0)))


def quar(c):
    """blocks of one slab pass through the quarantine in any order; a second release of any of them is detected"""
    P = c.params
    ps = P["st"]
    fresh(c, P["cls"])
    ps = [ps[i] for i in P["slots"] if i < len(ps)]
    done = []
    for i in range(P["n"]):
        j = c.pick("slot", len(ps))
        p = ps.pop(j)
        c.call("h_free", p)
        done.append(p)
        if P.get("trim") and c.pick("trim", 2):
            c.call("h_malloc_trim", 0)
    c.info["freed"] = done
    p = done[c.pick("again", len(done))]
    attempt(c, p, [])


def leaving_setup(c):
    """the queue of the class full up to one block with blocks of other slabs; one full slab in address order"""
    cls, hm = c.params["cls"], c.hm
    r = class_range(hm, cls)[1]
    a = [c.call("h_malloc", r) for _ in range(4 * quar_lengths(hm, cls)[1])]
    n = quar_lengths(hm, cls)[1]
    by = {}
    for p in a:
        by.setdefault(p - hm.slab_start & ~(hm.slab_size(cls) - 1), []).append(p)
    g = [sorted(v) for v in by.values() if len(v) == hm.slots[cls]]
    others = [p for p in a if p not in g[-1]]
    return g[-1], others[:n + 2]


def leaving(c):
    """several blocks of one slab are freed; then the queue moves on until some of them have left it"""
    ps, others = c.params["st"]
    ps = [ps[i] for i in c.params["slots"]]
    done = []
    for i in range(2 + c.pick("three", 2)):
        p = ps.pop(c.pick("slot", len(ps)))
        c.call("h_free", p)
        done.append(p)
    k = quar_lengths(c.hm, c.params["cls"])[1] - len(done) + 1 + c.pick("more", 2)
    for p in others[:k]:
        c.call("h_free", p)
    p = done[c.pick("again", len(done))]
    attempt(c, p, [])


def race(c):
    """two threads release the same block at the same time: at least one of them aborts"""
    P = c.params
    hm, M = c.hm, c.M
    keep = [c.call("h_malloc", P["req"]) for _ in range(P.get("keep", 1))]
    p = c.call("h_malloc", P["req"])
    how = [("h_free", p), ("h_free_sized", p, P["req"]), ("h_realloc", p, P["other"])]
    ops = [how[c.pick("how", 3)] for _ in range(2)]
    c.info["ops"] = [o[0] for o in ops]
    def mk(o):
        def run():
            k, v = c.attempt(*o)
            if k == "ret":
                return
            if k == "fatal" or k == "segv" and o[0] == "h_realloc":
                c.reach(k)
                raise Stop
            c.fail("%s: %s" % (o[0], k))
        return run
    s = Sched(c, [mk(o) for o in ops], preempt=P["preempt"])
    c.info["schedule"] = s.log
    s.run()
    c.fail("two threads released the same block and neither call aborted")


def tasks(tier, seed):
    T = tier == "thorough"
    B = 60 if T else 12
    r = []
    for cfg in (D, NQ, L):
        for cls in ((1, 2, 3, 4, 9, 12, 21, 29, 34, 36, 40, 48, 0) if T else (1, 3, 9, 12, 29, 34, 0) if cfg is D else (1, 3, 34)):
            P = dict(cls=cls, after=hm_after(cls))
            r.append(Task("inside/%s/%d" % (cfg.name, cls), cfg, inside, P, setup=setup, budget=B, reach=["fatal"]))
            if cfg is D:
                r.append(Task("reserved/%s/%d" % (cfg.name, cls), cfg, farther, P, setup=setup, budget=B, reach=["fatal"]))
        r.append(Task("outside/%s" % cfg.name, cfg, outside, dict(cls=5, small=0), setup=setup, budget=B, reach=["fatal"]))
        r.append(Task("near-large/%s" % cfg.name, cfg, near_big, dict(cls=5, small=0), setup=setup, budget=B, reach=["fatal"]))
    r.append(Task("uninitialized", D, uninit, {}, boot=False, budget=B, reach=["fatal"]))
    for cfg in (D, NQ, NE, L):
        for cls in ((0, 1, 3, 9, 29, 34, 36) if T else (0, 1, 36)):
            r.append(Task("double/%s/%d" % (cfg.name, cls), cfg, double, dict(cls=cls, between=3 if T else 2), budget=B, reach=["fatal"]))
        r.append(Task("double-large/%s" % cfg.name, cfg, double_large, dict(between=3 if T else 2), budget=B, reach=["fatal"]))
    for lr, lq in ((0, 0), (1, 0), (0, 1), (1, 1), (0, 2)) + (((2, 0), (2, 2)) if T else ()):
        for sr in (True, False):
            q = Cfg("default", EXTENDED_SIZE_CLASSES=False, SLOT_RANDOMIZE=sr, SLAB_QUARANTINE_RANDOM_LENGTH=lr, SLAB_QUARANTINE_QUEUE_LENGTH=lq, name="no-ext,slab-quarantine-%d-%d%s" % (lr, lq, "" if sr else ",no-slot-randomize"))
            r.append(Task("quarantine/%s/36" % q.name, q, quar, dict(cls=36, n=3, slots=range(4), enum=8, trim=T), setup=quar_setup, budget=B / 2, reach=["fatal"]))
    # slabs with several bitmap words, small blocks: the quarantine of the class is as long as the number of frees allows
    Q1 = Cfg("default", EXTENDED_SIZE_CLASSES=False, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, SLOT_RANDOMIZE=False, name="no-ext,no-slab-quarantine,no-slot-randomize")
    for cls in (1, 2):
        r.append(Task("quarantine/%s/%d" % (Q1.name, cls), Q1, quar, dict(cls=cls, n=3, slots=(0, 1, 62, 63, 64, 65, 127, 128, 129, 255), enum=64), setup=quar_setup, budget=B / 2, reach=["fatal"]))
    QQ = Cfg("default", EXTENDED_SIZE_CLASSES=False, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=1, SLOT_RANDOMIZE=False, name="no-ext,slab-quarantine-0-1,no-slot-randomize")
    r.append(Task("quarantine/%s/2" % QQ.name, QQ, leaving, dict(cls=2, slots=(0, 1, 62, 63, 64, 65, 127), enum=64), setup=leaving_setup, budget=B, reach=["fatal"]))
    for base in (D, NQ, NE, L):
        for req, other in ((40, 700), (300000, 100), (300000, 400000)) + (((0, 100), (1000, 0), (20000, 300000)) if T else ()):
            r.append(Task("race/%s/%d-%d" % (base.name, req, other), base, race, dict(req=req, other=other, preempt=3 if T else 2), budget=B, reach=["fatal"]))
    return r


def hm_after(cls):
    return 0x3000
