from hmsym.explore import Stop
from hmsym.runner import Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from hmsym import fam, expr as X
from hmsym.expr import E
from props import c30
NOZ = c30.NOZ

PROP = Prop("C10", bounds=["slabs full of live blocks; two rounds of up to 7 frees and 3 allocations of one class, arbitrary random array positions (every position enumerated for lengths up to 8, symbolic above)",
                           "random array and queue lengths 0 to 4 (scaled), and a FIFO of 1024 and 2048 entries", "first-in first-out order exact when no random array is configured"],
            assumptions=["the reference keeps every state the documented quarantine can be in for the frees made so far; a block handed out must be free in one of them, and a new slab may only be used if in one of them no slot is free"])


class Ref:
    """every state the documented quarantine may be in"""

    def __init__(self, lr, lq):
        self.lr, self.lq = lr, lq
        self.states = {((None,) * lr, (), frozenset())}

    def enqueue(self, q, rel, p):
        if not self.lq:
            return q, rel | {p}
        if len(q) < self.lq:
            return q + (p,), rel
        return q[1:] + (p,), rel | {q[0]}

    def free(self, p):
        n = set()
        for ra, q, rel in self.states:
            if not self.lr:
                q2, rel2 = self.enqueue(q, rel, p)
                n.add((ra, q2, rel2))
                continue
            for i in range(self.lr):
                old = ra[i]
                # positions are interchangeable
                ra2 = tuple(sorted(ra[:i] + (p,) + ra[i + 1:], key=lambda x: (x is None, x or 0)))
                if old is None:
                    n.add((ra2, q, rel))
                else:
                    q2, rel2 = self.enqueue(q, rel, old)
                    n.add((ra2, q2, rel2))
        self.states = n

    def alloc(self, p):
        """p came from an existing slab"""
        self.states = {(ra, q, rel - {p}) for ra, q, rel in self.states if p in rel}
        return bool(self.states)

    def new_slab(self):
        self.states = {s for s in self.states if not s[2]}
        return bool(self.states)


def setup(c):
    hm = c.hm
    cls = c.params["cls"]
    ps = fam.refill_setup(c)
    return ps


def release(c, p, how):
    hi = class_range(c.hm, c.params["cls"])[1]
    if how == "h_free_sized":
        c.call(how, p, hi)
    elif how == "realloc":
        c.call("h_realloc", p, 100 if c.params["cls"] > 12 else 10000)
    else:
        c.call("h_free", p)


def rounds(c):
    P = c.params
    hm = c.hm
    cls = P["cls"]
    ps = list(P["st"])
    lr, lq = quar_lengths(hm, cls)
    lo, hi = class_range(hm, cls)
    if lr:
        fresh(c, cls)
    ref = Ref(lr, lq)
    per = hm.slots[cls]
    # one block of every slab stays live, so that no slab becomes empty
    keep = set(ps[::per])
    live = [p for p in ps if p not in keep]
    known = set(ps)
    slabs = {p // hm.slab_size(cls) for p in ()}
    base, end = ps[0], ps[-1] + hm.size_of(cls)
    if P.get("order"):
        live = live[P["order"]::-1] + live[P["order"] + 1:]
    log = c.info["ops"] = []
    how = P["hows"][c.pick("how", len(P["hows"]))]
    for rnd in range(P["rounds"]):
        nf = P["frees"][rnd]
        nf = nf[c.pick("frees", len(nf))]
        na = P["allocs"][rnd]
        na = na[c.pick("allocs", len(na))]
        for _ in range(nf):
            if not live:
                raise Stop
            p = live.pop(0)
            log.append("free %#x" % p)
            release(c, p, how)
            ref.free(p)
        for _ in range(na):
            p = c.call("h_malloc", hi)
            if isinstance(p, E):
                p = c.M.choose(p)
            log.append("alloc %#x" % p)
            if p in live or p in keep:
                c.fail("a live block was handed out again")
            if p in known:
                if not ref.alloc(p):
                    c.fail("a freed block was handed out before the quarantine released it")
                c.reach("reused")
            else:
                if not P.get("nonew") and not ref.new_slab():
                    c.fail("a freed block stays unusable although the quarantine must have released it")
                c.reach("held")
                known.add(p)
                if P.get("stop_new", 1):
                    break
            live.append(p)
    c.ok_kernel()
    c.reach("end")


def fifo(c):
    """long queue, exact order"""
    P = c.params
    hm = c.hm
    cls = P["cls"]
    ps = list(P["st"])
    lr, lq = quar_lengths(hm, cls)
    hi = class_range(hm, cls)[1]
    per = hm.slots[cls]
    keep = set(ps[::per])
    fr = [p for p in ps if p not in keep][:lq + P["over"]]
    for p in fr[:lq]:
        c.call("h_free", p)
    p = c.call("h_malloc", hi)
    if p in ps:
        c.fail("a freed block was handed out before the quarantine released it")
    rest = fr[lq:]
    size = c.size("more", 1, len(rest))
    k = c.M.choose(size)
    for q in rest[:k]:
        c.call("h_free", q)
    got = []
    for _ in range(60):
        q = c.call("h_malloc", hi)
        if q in set(ps):
            got.append(q)
            if q not in fr[:k]:
                c.fail("blocks left the quarantine out of order")
        if len(got) == k:
            break
    if len(set(got)) != k:
        c.fail("a freed block stays unusable although the quarantine must have released it (%d of %d released)" % (len(got), k))
    c.reach("end")


def symbolic(c):
    """random array longer than can be enumerated: positions symbolic"""
    P = c.params
    hm = c.hm
    cls = P["cls"]
    ps = P["st"]
    lr, lq = quar_lengths(hm, cls)
    hi = class_range(hm, cls)[1]
    fresh(c, cls)
    sp = [1, 2, 5]
    nf = c.pick("frees", 3) + 1
    fr = [ps[j] for j in sp[:nf]]
    for p in fr:
        c.call("h_free", p)
    q = c.call("h_malloc", hi)
    c.info["new"] = q
    ok = fr[:max(0, nf - lq - (1 if lr else 0))]
    inside = X.ule(64, X.sub(64, q, ps[0]), ps[-1] - ps[0])
    okc = 0
    for p in ok:
        okc = X.bor(okc, X.eq(64, q, p))
    c.prove(X.bor(X.not_(inside), okc), "a freed block was handed out before the quarantine released it, or a live one")
    if ok and not isinstance(inside, int):
        # and early release is possible at all
        if not c.must(X.not_(inside)):
            c.reach("early")
    c.reach("end")


def q(lr, lq):
    return Cfg("default", EXTENDED_SIZE_CLASSES=False, SLAB_QUARANTINE_RANDOM_LENGTH=lr, SLAB_QUARANTINE_QUEUE_LENGTH=lq, SLOT_RANDOMIZE=False, name="no-ext,fixed-slots,slab-quarantine-%d-%d" % (lr, lq))


def tasks(tier, seed):
    T = tier == "thorough"
    B = 90 if T else 12
    r = []
    for lr, lq in ((0, 1), (0, 2), (0, 3), (1, 0), (2, 0), (1, 1), (2, 1), (1, 2), (2, 2)) + (((3, 0), (3, 3), (2, 3)) if T else ()):
        cfg = q(lr, lq)
        m = lr + lq
        P = dict(cls=36, slabs=4, rounds=2, frees=[tuple(range(0, min(m + 3, 9))), tuple(range(0, min(m + 2, 4)))], allocs=[(0, 1, 2, 3), (1, 2)], enum=8, hows=("h_free",))
        r.append(Task("rounds/%s/36" % cfg.name, cfg, rounds, P, setup=setup, budget=B, reach=["end", "held", "reused"]))
    for cls in (33, 35):
        for lr, lq in ((1, 1), (0, 2)):
            cfg = q(lr, lq)
            P = dict(cls=cls, slabs=3, rounds=1, frees=[(1, 2, 3, 4, 5, 6, 7)], allocs=[(1, 2)], enum=8, hows=("h_free",))
            r.append(Task("rounds/%s/%d" % (cfg.name, cls), cfg, rounds, P, setup=setup, budget=B, reach=["end", "held"]))
    cfg = q(1, 1)
    r.append(Task("rounds/how/36", cfg, rounds, dict(cls=36, slabs=3, rounds=1, frees=[(1, 2, 3, 4)], allocs=[(1, 2)], enum=8, hows=("h_free", "h_free_sized", "realloc")), setup=setup, budget=B, reach=["end", "held", "reused"]))
    r.append(Task("rounds/order/36", cfg, rounds, dict(cls=36, slabs=4, rounds=2, frees=[(2, 3, 4, 5), (1, 2)], allocs=[(1, 2), (1, 2)], enum=8, hows=("h_free",), order=6), setup=setup, budget=B, reach=["end"]))
    for cls, k in ((1, 9), (9, 5)) + (((17, 20),) if T else ()):
        c0 = q(0, 1)
        r.append(Task("fifo/%s/%d" % (c0.name, cls), c0, fifo, dict(cls=cls, slabs=k, over=4), setup=setup, budget=B * 2, reach=["end"]))
    c2 = q(0, 2)
    r.append(Task("fifo/%s/%d" % (c2.name, 21), c2, fifo, dict(cls=21, slabs=20, over=4), setup=setup, budget=B, reach=["end"]))
    for lr, lq in ((1, 0), (1, 1)):
        cfg = q(lr, lq)
        for cls in ((1, 9) if not lq and not T else (1, 9, 20, 25)):
            r.append(Task("symbolic/%s/%d" % (cfg.name, cls), cfg, symbolic, dict(cls=cls), setup=setup, budget=B, reach=["end"] + (["early"] if not lq else [])))
    for cls in (36, 48):
        r.append(Task("symbolic/%s/%d" % (D.name, cls), D, symbolic, dict(cls=cls, slabs=6 if cls == 48 else 2, enum=8), setup=setup, budget=B, reach=["end"]))
    # more random positions than 16 bits can count: distinct random words must be able to keep blocks at distinct positions
    for n, k in ((8, 1), (16, 1), (32, 3)):
        cf = Cfg("default", SLAB_QUARANTINE_RANDOM_LENGTH=n, SLAB_QUARANTINE_QUEUE_LENGTH=0, SLOT_RANDOMIZE=False, name="slab-quarantine-%d-0,first-slot" % n, **NOZ)
        r.append(Task("huge-%d/%d" % (n, k), cf, c30.huge, dict(cls=k, n=4, enum=4096), budget=B, reach=["end"], post=c30.post))
    return r
