from hmsym.explore import Stop
from hmsym.runner import Cfg, Prop, Task
from hmsym.scen import *
from hmsym import fam, expr as X
from hmsym.expr import E
from hmsym.machine import USER_BASE

PROP = Prop("C29", bounds=["every size class; every slot of a slab with its neighbours; tags are symbolic (any tag the random tag instruction may return), sequences of up to 4 (quick) or 6 (thorough) frees and allocations over 3 or 4 adjacent slots of a full slab, repeated use of one slot, recycled and trimmed slabs",
                           "free, realloc and the size queries with every 8-bit address tag on the block's pointer, sizes symbolic in their class; memory clearing with DC GZVA prohibited and with every zeroing block of 16 to 2048 bytes"],
            assumptions=["the tagging instructions behave as documented (IRG honours the exclusion mask, STZG and DC GZVA clear and tag memory of pages mapped with PROT_MTE, other pages keep no tags); the inline assembly of arm_mte.h is interpreted",
                         "compiled for a little-endian 64-bit target with HAS_ARM_MTE; violations are replayed in the interpreter only, there is no such hardware here"])
LOW = (1 << 56) - 1
DEF = ("-DHAS_ARM_MTE", "-DPROT_MTE=0x20", "-I", __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "..", "hmsym", "include", "mte"))


def cfg(variant="default", name="", **kw):
    return Cfg(variant, extra=DEF, native=False, name="mte," + name, **kw)


def untag(p):
    return X.and_(64, p, LOW)


class Tagged:
    def __init__(self, c, cls, ps):
        self.c, self.cls = c, cls
        self.size = c.hm.size_of(cls)
        self.stride = c.hm.slab_size(cls)
        self.base = min(p & LOW for p in ps) if ps else None
        self.n = c.hm.slots[cls]
        self.tags = {}           # slot address -> current or latest tag
        self.live = {}           # slot address -> pointer
        for p in ps:
            self.live[p & LOW] = p
            self.tags[p & LOW] = p >> 56
        if len(self.live) != len(ps):
            c.fail("the same block is handed out twice")
        c.M.ghost["mtesym"] = 1

    def before(self):
        self.c.M.mte.sync()
        return list(self.c.M.mte.log)

    def others(self, log, p):
        """tags of everything except the slot at p"""
        return sorted((r for x in log for r in ((x[0], min(x[1], p), x[2]), (max(x[0], p + self.size), x[1], x[2])) if r[0] < r[1]), key=lambda r: r[0])

    def norm(self, L):
        o = []
        for x in L:
            if x[2].__class__ is int and x[2] == 0:
                continue
            if o and o[-1][1] == x[0] and o[-1][2] is x[2]:
                o[-1] = (o[-1][0], x[1], x[2])
            else:
                o.append(x)
        return o

    def same(self, a, b, what):
        a, b = self.norm(a), self.norm(b)
        if [x[:2] for x in a] != [x[:2] for x in b] or any(x[2] is not y[2] and not self.c.M.must(X.eq(64, x[2], y[2])) for x, y in zip(a, b)):
            self.c.fail("%s changes tags of other memory" % what)

    def neighbours(self, p):
        k = (p - self.base) % self.stride // self.size
        r = []
        if k > 0:
            r.append(p - self.size)
        if k < self.n - 1:
            r.append(p + self.size)
        return r

    def check(self, r, old, what="malloc"):
        """a new block"""
        c, M = self.c, self.c.M
        t = X.lshr(64, r, 56)
        p = M.conc(untag(r))
        if p is None:
            p = M.choose(untag(r))
        if p in self.live:
            c.fail("%s returns a block which is in use" % what)
        c.prove(X.ult(64, t, 16), "%s returns an address with more than a tag" % what)
        c.prove(X.ne(64, t, 0), "%s returns a block with the reserved tag" % what)
        if p in self.tags:
            c.prove(X.ne(64, t, self.tags[p]), "a block has the previous tag of its slot")
            c.reach("own")
        if self.base is not None:
            for q in self.neighbours(p):
                if q in self.tags:
                    c.prove(X.ne(64, t, self.tags[q]), "a block has the tag of a neighbouring slot (%s)" % ("live" if q in self.live else "free"))
                    c.reach("neighbour")
        for a, b, tt in M.mte.tags(p, self.size):
            if not M.must(X.eq(64, tt, t)):
                c.fail("memory of a block is not tagged with the tag of its pointer (%s at %d of %d)" % ("start" if a == p else "end" if b == p + self.size else "middle", a - p, self.size))
        if not M.mte.enabled(p) or not M.mte.enabled(p + self.size - 1):
            c.fail("memory of a block is not mapped for tagging")
        for o in sorted(set(list(range(0, min(self.size, 64), 8)) + list(range(max(0, self.size - 64), self.size, 8)) + list(range(0, self.size, 1 << max(3, self.size.bit_length() - 6))))):
            v = M.rdword(p + o)
            c.prove(X.eq(64, v, 0), "memory of a new block is not cleared")
        self.same(self.others(old, p), self.others(M.mte.log, p), what)
        self.tags[p] = t
        self.live[p] = r
        return p

    def malloc(self, req=None):
        c = self.c
        old = self.before()
        r = c.call("h_malloc", class_range(c.hm, self.cls)[1] if req is None else req)
        c.prove(X.ne(64, r, 0), "malloc fails")
        return self.check(r, old)

    def dirty(self, p):
        """the owner uses its memory through the pointer"""
        r = self.live[p]
        for o in (0, self.size - self.c.hm.canary - 8):
            if o >= 0:
                self.c.M.store(X.add(64, r, o), 8, 0xa5a5a5a5a5a5a5a5)

    def free(self, p, dirty=True):
        c, M = self.c, self.c.M
        if dirty:
            self.dirty(p)
        old = self.before()
        c.call("h_free", self.live.pop(p))
        self.freed(p, old)

    def freed(self, p, old):
        c, M = self.c, self.c.M
        for a, b, t in M.mte.tags(p, self.size):
            if not M.must(X.eq(64, t, 0)):
                c.fail("memory of a freed block keeps its tag")
        self.same(self.others(old, p), self.others(M.mte.log, p), "free")
        c.reach("freed")


def filled(c):
    """a full slab (concrete)"""
    cls = c.params["cls"]
    return [c.call("h_malloc", class_range(c.hm, cls)[1]) for _ in range(c.hm.slots[cls] * c.params.get("slabs", 1))]


def slot(c):
    """one slot and its neighbours, everything around is live"""
    P = c.params
    c.symbolic_random(False)
    s = Tagged(c, P["cls"], P["st"])
    n = s.n
    idx = list(range(n)) if P.get("all") else sorted({0, 1, n // 2, n - 2, n - 1} | set(range(7, n, 32))) if n > 4 else list(range(n))
    idx = idx[P.get("part", 0)::P.get("parts", 1)]
    i = idx[c.pick("slot", len(idx))]
    if P.get("slabs"):
        s.base += c.pick("slab", P["slabs"]) * s.stride
    c.info["slot"] = i
    around = [k for k in (i - 1, i, i + 1) if 0 <= k < n]
    ad = lambda k: s.base + k * s.size
    for k in around + [i]:
        s.free(ad(k))
        s.malloc()
    for k in around:
        s.free(ad(k))
    for k in around:
        s.malloc()
    c.reach("end")


def window(c):
    """all sequences of frees and allocations on a few adjacent slots"""
    P = c.params
    c.symbolic_random(False)
    s = Tagged(c, P["cls"], P["st"])
    at = {"first": 0, "last": s.n - P["w"], "mid": (s.n - P["w"]) // 2}[P["at"]]
    W = [s.base + (at + k) * s.size for k in range(P["w"]) if at + k < s.n]
    # symbolic tags first
    for p in W:
        s.free(p)
        s.malloc()
    for j in range(P["steps"]):
        menu = [p for p in W if p in s.live] + ([None] if any(p not in s.live for p in W) else [])
        p = menu[c.pick("op", len(menu))]
        if p is None:
            s.malloc()
        else:
            s.free(p)
    c.reach("end")


def random_slots(c):
    """random slot choice and quarantines: any slot of a partly used slab"""
    P = c.params
    hm, M = c.hm, c.M
    s = Tagged(c, P["cls"], P["st"])
    fresh(c, P["cls"])
    for k in range(P["frees"]):
        live = sorted(s.live)
        s.free(live[c.pick("f", len(live))])
    for k in range(P["mallocs"]):
        s.malloc()
    c.reach("end")


def classes(c):
    """first blocks of each class, by every allocating function"""
    P = c.params
    hm, M = c.hm, c.M
    c.symbolic_random(False)
    M.ghost["dczid"] = P["dczid"][c.pick("dczid", len(P["dczid"]))]
    cls = P["classes"][c.pick("class", len(P["classes"]))]
    c.info["class"] = cls
    s = Tagged(c, cls, [])
    lo, hi = class_range(hm, cls)
    n = c.size("s", lo, hi)
    ps = []
    for f in ("h_malloc", "h_calloc", "h_realloc", "h_aligned_alloc", "h_posix_memalign"):
        old = s.before()
        if f == "h_posix_memalign":
            c.prove(X.eq(32, c.call(f, USER_BASE, 16, n), 0), "posix_memalign fails")
            r = c.rd(USER_BASE, 8)
        else:
            r = c.call(f, *{"h_malloc": (n,), "h_calloc": (1, n), "h_realloc": (0, n), "h_aligned_alloc": (16, n)}[f])
        c.prove(X.ne(64, r, 0), "%s fails" % f)
        ps.append(s.check(r, old, f))
    for p in ps:
        s.free(p)
    s.malloc()
    c.reach("end")


def accept(c):
    """pointers with any tag are accepted as the block they belong to"""
    P = c.params
    hm, M = c.hm, c.M
    c.symbolic_random(False)
    M.ghost["mtesym"] = 1
    cls = P["cls"]
    lo, hi = (300000, 303000) if cls is None else class_range(hm, cls)
    n = c.size("s", lo, hi) if cls is not None else 300000
    size = hm.size_of(cls) if cls is not None else 0
    p = c.call("h_malloc", n)
    c.prove(X.ne(64, p, 0), "malloc fails")
    q = untag(p)
    a = X.or_(64, q, X.shl(64, X.zext(64, c.var("t", 8)), 56))
    us = c.call("h_malloc_usable_size", q)
    if cls is not None:
        c.prove(X.eq(64, us, class_usable(hm, cls)), "malloc_usable_size of the untagged pointer")
    op = c.pick("op", 7)
    c.info["op"] = op
    if op == 0:
        c.prove(X.eq(64, c.call("h_malloc_usable_size", a), us), "malloc_usable_size depends on the tag")
    elif op in (1, 2):
        f = ("h_malloc_object_size", "h_malloc_object_size_fast")[op - 1]
        o = (0, 8, size // 2)[c.pick("off", 3)] if size else 0
        u, v = c.call(f, X.add(64, q, o)), c.call(f, X.add(64, a, o))
        c.prove(X.eq(64, u, v), f[2:] + " depends on the tag")
    elif op == 3:
        k, v = c.attempt("h_free", a)
        c.prove(1 if k == "ret" else 0, "free does not accept a tagged pointer")
        k, v = c.attempt("h_free", a)
        c.prove(1 if k == "fatal" else 0, "the block was not freed")
        c.reach("end")
        return
    elif op == 4:
        k, v = c.attempt("h_free_sized", a, n)
        c.prove(1 if k == "ret" else 0, "free_sized does not accept a tagged pointer")
        c.reach("end")
        return
    elif op == 5:
        m = c.size("m", lo, hi) if cls is not None else 300000
        k, v = c.attempt("h_realloc", a, m)
        c.prove(1 if k == "ret" else 0, "realloc does not accept a tagged pointer")
        c.prove(X.eq(64, untag(v), q), "realloc in place moves the block")
        if cls is not None:
            c.prove(X.eq(64, v, a), "realloc in place changes the tag of the pointer")
    else:
        # moving resize through the real pointer
        m = P["to"][c.pick("to", len(P["to"]))]
        if cls != 0:
            M.store(p, 8, 0x1122334455667788)
        k, v = c.attempt("h_realloc", p, m)
        if k != "ret":
            c.fail("realloc of a tagged pointer fails (%s %s)" % (k, v))
        c.prove(X.ne(64, v, 0), "realloc fails")
        if m:
            w = M.rdword(M.conc(untag(v)))
            if cls != 0:
                c.prove(X.eq(64, w, 0x1122334455667788), "realloc loses the contents")
            if m + hm.canary <= hm.maxslab:
                c.prove(X.ne(64, X.lshr(64, v, 56), 0), "realloc returns a block with the reserved tag")
        if cls is not None and cls != 0:
            for x in M.mte.tags(M.conc(q), size):
                if not M.must(X.eq(64, x[2], 0)) and not M.must(X.eq(64, untag(v), q)):
                    c.fail("memory of a block freed by realloc keeps its tag")
        p = v
    k, v = c.attempt("h_free", p)
    c.prove(1 if k == "ret" else 0, "free does not accept the pointer")
    c.reach("end")


def recycle(c):
    """slabs are released, recycled and used again"""
    P = c.params
    hm, M = c.hm, c.M
    c.symbolic_random(False)
    cls = P["cls"]
    s = Tagged(c, cls, P["st"])
    ps = sorted(s.live)
    # the n-th round uses a different order
    M.ghost["mtesym"] = P.get("sym", 0)
    for p in (ps, ps[::-1])[c.pick("order", 2)]:
        s.free(p, dirty=False)
    if c.pick("trim", 2):
        c.call("h_malloc_trim", 0)
        c.reach("trimmed")
    for _ in ps:
        s.malloc()
    c.prove(1 if sorted(s.live) == ps or P.get("any") else 0, "slabs are not reused") if 0 else None
    c.reach("end")


def tasks(tier, seed):
    T = tier == "thorough"
    B = 240 if T else 40
    NOQ = dict(SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=0)
    S = cfg(name="no-quarantine,first-slot", SLOT_RANDOMIZE=False, **NOQ)
    SN = cfg(name="no-quarantine,first-slot,no-ext,no-canary", SLOT_RANDOMIZE=False, EXTENDED_SIZE_CLASSES=False, SLAB_CANARY=False, **NOQ)
    SG = cfg(name="no-quarantine,first-slot,no-guard-slabs", SLOT_RANDOMIZE=False, GUARD_SLABS_INTERVAL=1000, **NOQ)
    R = cfg(name="no-quarantine", **NOQ)
    D = cfg(name="default")
    LI = cfg("light", name="light", ZERO_ON_FREE=True)
    r = []
    ncls = 48
    cl = [1, 3, 4, 8, 12, 20, 33, 48]
    for k in ([1, 3, 4, 6, 9, 14, 20, 24, 30, 37, 43, 48] if T else [1, 3, 8, 14, 24, 48]):
        parts = 6 if k <= 3 and T else 1
        for i in range(parts):
            r.append(Task("slot/%d/%d" % (k, i), S, slot, dict(cls=k, part=i, parts=parts, all=T), setup=filled, budget=B, reach=["end", "freed", "own"]))
    for k in (1, 2):
        r.append(Task("slot/two-slabs/%d" % k, SG, slot, dict(cls=k, slabs=2), setup=filled, budget=B, reach=["end", "neighbour", "own"]))
    r.append(Task("slot/no-ext", SN, slot, dict(cls=7), setup=filled, budget=B, reach=["end", "neighbour", "own"]))
    for at in ("first", "mid", "last"):
        for k in ((3, 20, 33) if T else (3, 20)):
            r.append(Task("window/%s/%d" % (at, k), S, window, dict(cls=k, w=4 if T else 3, steps=6 if T else 4, at=at), setup=filled, budget=B, reach=["end", "neighbour", "own"]))
    for C in (R, D):
        for k in ((25, 33, 36) if T else (36,)):
            r.append(Task("random/%s/%d" % (C.name, k), C, random_slots, dict(cls=k, frees=2, mallocs=3 if T else 2), setup=filled, budget=B, reach=["end", "freed"]))
    for C in (S, D, LI, SN):
        cs = list(range(1, ncls + 1)) if C is not SN else list(range(1, 37))
        n = 3
        for i in range(n):
            r.append(Task("classes/%s/%d" % (C.name, i), C, classes, dict(dczid=[16, 2, 3, 4, 5, 6, 7, 8, 9] if T else [16, 4] if C is S else [4], classes=cs[i::n]), budget=B, reach=["end"]))
    r.append(Task("clear", S, classes, dict(dczid=[16, 2, 3, 4, 5, 6, 7, 8, 9], classes=[1, 2, 4, 5, 9, 13, 21, 29, 41]), budget=B, reach=["end"]))
    for C, ks in ((D, [0, 1, 5, 20, 48, None]), (LI, [0, 4, 37, None]), (SN, [0, 1, 17, 36, None])):
        for k in ks:
            r.append(Task("accept/%s/%s" % (C.name, k), C, accept, dict(cls=k, to=[0, 24, 200, 5000, 300000, 400000]), budget=B, reach=["end"]))
    SM = cfg(name="no-quarantine,first-slot,no-ext", SLOT_RANDOMIZE=False, EXTENDED_SIZE_CLASSES=False, **NOQ)
    for k, sl in ((36, 12), (33, 8)):
        r.append(Task("recycle/%d" % k, SM, recycle, dict(cls=k, slabs=sl), setup=filled, budget=B, reach=["end", "freed", "trimmed"]))
    r.append(Task("recycle/ext", S, recycle, dict(cls=48, slabs=6), setup=filled, budget=B, reach=["end", "freed", "trimmed"]))
    return r
