from hmsym.explore import Stop
from hmsym.runner import Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from hmsym import fam, expr as X
from hmsym.expr import E
from hmsym.machine import ENOMEM

PROP = Prop("C16", bounds=["class ranges of 1 MiB filled to exhaustion with guard intervals 1, 2, 3 and 5, for slab sizes from 4 to 128 KiB, with refused requests (errno) and recovery after frees",
                           "up to 6 (quick) or 9 (thorough) steps of: allocate a slab's worth, free the blocks of a slab, trim, refuse the next protection change, in any order, slot positions and release delays arbitrary",
                           "after every step the accessible part of every class range of every arena is compared with the slabs that were handed out; first slabs of every class at its real range size",
                           "lists: every sequence of 4 (quick) or 5 (thorough) steps over 3 slabs of a class (free a block, empty a slab, allocate a block or a slab's worth, trim), then fill, trim, empty and refill (no quarantine, first free slot)"],
            assumptions=["the first slab of a class marks the start of its slabs (its random offset: C23, C30)"])


class Range:
    """what the documentation allows to be accessible in the range of one class"""

    def __init__(self, c, cls, arena=0, interval=None):
        hm = c.hm
        self.cls, self.arena = cls, arena
        self.lo = hm.slab_start + (arena * hm.nclass + cls) * hm.real
        self.hi = self.lo + hm.real
        self.slab = hm.slab_size(cls)
        self.slots = hm.slots[cls]
        self.size = hm.size_of(cls)
        self.interval = hm.guard_int if interval is None else interval
        self.base = None
        self.used = set()
        self.nev = 0

    def clone(self):
        r = Range.__new__(Range)
        r.__dict__ = dict(self.__dict__, used=set(self.used))
        return r

    def got(self, c, p):
        """a block was handed out: position of its slab"""
        hm = c.hm
        if not self.lo <= p <= self.hi - self.size:
            c.fail("block outside the address range of its size class and arena")
        if self.base is None:
            # the slab holding the first block: pages made accessible for it
            m = mapped(c.M, self.lo, self.hi)
            if not m:
                c.fail("block of an inaccessible slab")
            if len(m) != 1 or m[0][1] - m[0][0] != self.slab:
                c.prot(m[0][0])
                c.fail("%d bytes made accessible for the first slab instead of %d" % (sum(b - a for a, b in m), self.slab))
            self.base = m[0][0]
        d = p - self.base
        if d < 0:
            c.fail("slab outside the slab positions of its class")
        i, o = divmod(d, self.slab)
        if o % self.size or o // self.size >= self.slots:
            c.fail("block is not a slot of a slab: slabs overlap")
        if i % (self.interval + 1) == self.interval:
            c.fail("slab %d is in a position that is a guard slab with interval %d" % (i, self.interval))
        if (i + 1) * self.slab > hm.crs:
            c.fail("slab beyond the range of its class")
        self.used.add(i)
        return i

    def check(self, c, before=None):
        """accessible memory is a subset of the slabs handed out"""
        m = mapped(c.M, self.lo, self.hi)
        pos = set()
        for a, b in m:
            for x in range((a - self.base) // self.slab, (b - 1 - self.base) // self.slab + 1) if self.base is not None else [None]:
                if x not in self.used:
                    c.prot(max(a, self.base + x * self.slab) if x is not None else a)
                    c.fail("memory of the class range is accessible that was not handed out as a slab (position %s)" % x)
                lo, hi = self.base + x * self.slab, self.base + (x + 1) * self.slab
                if a > lo or b < hi:
                    c.prot(lo)
                    c.fail("slab partly accessible")
                pos.add(x)
        return pos


def mapped(M, lo, hi):
    """accessible extents inside [lo, hi)"""
    r = []
    for s in M.segs:
        if s[0] < hi and lo < s[1] and s[2] & 3:
            a, b = max(s[0], lo), min(s[1], hi)
            if r and r[-1][1] == a:
                r[-1] = (r[-1][0], b)
            else:
                r.append((a, b))
    return r


def newest(c, rg, before, after):
    if len(after - before) > 1:
        c.fail("more than one slab made accessible by one allocation")


def take(c, rg, req, state):
    """allocate one block and check the accessible slabs; returns the pointer or None when refused"""
    c.set_errno(0)
    p = c.call("h_malloc", req)
    if isinstance(p, E):
        p = c.M.choose(p)
    if p == 0:
        if c.errno() != ENOMEM:
            c.fail("exhausted class range: errno %s instead of ENOMEM" % c.errno())
        after = rg.check(c)
        if after != state:
            c.fail("slab made accessible by a failed allocation")
        return None, state
    i = rg.got(c, p)
    after = rg.check(c)
    newest(c, rg, state, after)
    if i not in after:
        c.prot(p)
        c.fail("block of a slab that is not accessible")
    if not after >= state:
        c.fail("an allocation made a slab inaccessible")
    return p, after


def npos(hm, cls, interval):
    """slab positions of a class that are not guards"""
    n = hm.crs // hm.slab_size(cls)
    return [i for i in range(n) if i % (interval + 1) != interval]


def fill_setup(c):
    """concrete: the whole range of a class"""
    P = c.params
    hm = c.hm
    cls = P["cls"]
    rg = Range(c, cls)
    req = class_range(hm, cls)[1]
    state = set()
    live = {}
    while True:
        p, state = take(c, rg, req, state)
        if p is None:
            break
        if p in live:
            c.fail("block handed out twice")
        live[p] = 1
    want = npos(hm, cls, rg.interval)
    n = len(rg.used)
    if n != len(want) and abs(n - len(want)) > 0:
        c.fail("class range exhausted after %d slabs, it has %d slab positions" % (n, len(want)))
    if len(live) != n * rg.slots:
        c.fail("class range exhausted with free slots left")
    return rg, sorted(live), state


def exhausted(c):
    """exhausted class: requests fail with ENOMEM, others and later ones work"""
    P = c.params
    hm, M = c.hm, c.M
    rg0, ps, state = P["st"]
    rg = rg0.clone()
    cls = P["cls"]
    fresh(c, cls)
    lo, hi = class_range(hm, cls)
    s = c.size("s", lo, hi)
    how = c.pick("fn", 4)
    fn, args = [("h_malloc", (s,)), ("h_calloc", (s, 1)), ("h_aligned_alloc", (16, s)), ("h_realloc", (0, s))][how]
    c.set_errno(5)
    p = c.call(fn, *args)
    c.prove(X.eq(64, p, 0), "allocation from an exhausted class range succeeded")
    if c.errno() != ENOMEM:
        c.fail("exhausted class range: errno %s instead of ENOMEM" % c.errno())
    if rg.check(c) != state:
        c.fail("failed allocation changed the accessible slabs")
    # a block of another class and a large one still work
    k2 = 3 if cls != 3 else 4
    q = c.call("h_malloc", class_range(hm, k2)[1])
    c.prove(X.ne(64, q, 0), "another class failed")
    q2 = c.call("h_malloc", hm.maxslab + 1)
    c.prove(X.ne(64, q2, 0), "large allocation failed")
    # a growing block that cannot move stays as it is
    r = c.call("h_realloc", q, hi)
    c.prove(X.eq(64, r, 0), "realloc into an exhausted class range succeeded")
    c.prove(X.eq(64, c.call("h_malloc_usable_size", q), class_usable(hm, k2)), "failed realloc changed the block")
    # free a slot (arbitrary) and reuse
    lr, lq = quar_lengths(hm, cls)
    if lr == 0 and lq == 0:
        i = c.pick("slot", min(len(ps), P.get("nslots", 6)))
        v = ps[i * (len(ps) - 1) // max(min(len(ps), P.get("nslots", 6)) - 1, 1)]
        c.call("h_free", v)
        rg.check(c)
        p = c.call("h_malloc", s)
        c.prove(X.eq(64, p, v), "the only free slot of an exhausted class was not reused")
        rg.check(c)
        p = c.call("h_malloc", s)
        c.prove(X.eq(64, p, 0), "allocation from an exhausted class range succeeded")
        # a whole slab becomes empty and is reused (possibly trimmed before)
        n = rg.slots
        sl = c.pick("slab", 3) * (len(rg.used) - 1) // 2
        idx = sorted(rg.used)[sl]
        blk = [x for x in ps if rg.base + idx * rg.slab <= x < rg.base + (idx + 1) * rg.slab]
        for x in blk:
            c.call("h_free", x)
        if c.pick("trim", 2):
            c.call("h_malloc_trim", 0)
            acc = rg.check(c)
            if idx in acc:
                c.fail("trim kept an empty slab accessible")
        acc = rg.check(c)
        if P["fsq"] == 0:
            for _ in range(n):
                p, acc = take(c, rg, hi, acc)
                if p is None or p not in blk:
                    c.fail("the released slab was not reused")
            c.prove(X.eq(64, c.call("h_malloc", s), 0), "allocation from an exhausted class range succeeded")
    rg.check(c)
    c.ok_kernel()
    c.reach("end")


def grow(c):
    """slabs are added, emptied, trimmed, refused in any order"""
    P = c.params
    hm, M = c.hm, c.M
    cls = P["cls"]
    if P.get("sym", 1):
        fresh(c, cls)
    rg = Range(c, cls)
    lo, hi = class_range(hm, cls)
    slabs = []      # lists of blocks by fill order
    state = set()
    arm = [0]
    hit = [0]

    def fault(M, name, args):
        if arm[0] and name == "mprotect":
            arm[0] = 0
            hit[0] = 1
            return ENOMEM
        return 0
    M.ghost["fault"] = fault
    log = c.info["ops"] = []
    for step in range(P["steps"]):
        ops = ["new", "refuse"] + (["empty0", "empty1", "one", "trim"] if slabs else [])
        ops = [o for o in ops if o in P.get("menu", ops)]
        o = ops[c.pick("op", len(ops))]
        log.append(o)
        if o in ("new", "refuse"):
            arm[0] = o == "refuse"
            hit[0] = 0
            bl = []
            while len(bl) < rg.slots * P.get("slabs", 1):
                p, state = take(c, rg, hi, state)
                if p is None:
                    if o != "refuse" or not arm[0] and hit[0] == 0:
                        if len(rg.used) == len(npos(hm, cls, rg.interval)):
                            raise Stop      # every position of the range has been used
                        c.fail("allocation failed although memory is available")
                    o = "refused"
                    arm[0] = 0
                    continue
                bl.append(p)
            arm[0] = 0
            slabs.append(bl)
        elif o in ("empty0", "empty1"):
            bl = slabs.pop(0 if o == "empty0" else -1)
            for p in bl:
                c.call("h_free", p)
            n = rg.check(c)
            if not n <= state:
                c.fail("free made memory accessible")
            state = n
        elif o == "one":
            bl = slabs[-1]
            c.call("h_free", bl.pop(0))
            if not bl:
                slabs.pop()
            state = rg.check(c)
        else:
            c.call("h_malloc_trim", 0)
            n = rg.check(c)
            if not n <= state:
                c.fail("trim made memory accessible")
            state = n
        # live blocks stay accessible
        for bl in slabs:
            for p in bl:
                if (p - rg.base) // rg.slab not in state:
                    c.prot(p)
                    c.fail("slab with live blocks became inaccessible")
    c.ok_kernel()
    c.reach("end")


def first(c):
    """first slabs of every class at its documented range size, every other range untouched"""
    P = c.params
    hm, M = c.hm, c.M
    cls = P["cls"][c.pick("cls", len(P["cls"]))]
    fresh(c, cls)
    rg = Range(c, cls)
    lo, hi = class_range(hm, cls)
    reg = (hm.slab_start, hm.slab_end)
    before = mapped(M, *reg)
    mine = mapped(M, rg.lo, rg.hi)
    if mine:         # used while booting
        rg.base = mine[0][0]
        rg.used.add(0)
    c.M.enum_draws = 256
    n = c.pick("count", 2) + 1
    s = c.size("s", lo, hi)
    p = c.call("h_malloc", s)
    if isinstance(p, E):
        p = M.choose(p)
    rg.got(c, p)
    rg.check(c)
    if n == 2:
        q = c.call("h_aligned_alloc", 16, s)
        rg.got(c, M.choose(q) if isinstance(q, E) else q)
        c.call("h_free", p)
        rg.check(c)
    other = [(a, b) for a, b in mapped(M, *reg) if not rg.lo <= a < rg.hi]
    if other != [(a, b) for a, b in before if not rg.lo <= a < rg.hi]:
        c.fail("allocation from one class changed accessibility in another class range")
    c.ok_kernel()
    c.reach("end")


def tasks(tier, seed):
    T = tier == "thorough"
    B = 90 if T else 6
    r = []

    def cfg(i, q=0, f=0, **k):
        return Cfg("default", CLASS_REGION_SIZE=1 << 20, GUARD_SIZE_DIVISOR=100000, GUARD_SLABS_INTERVAL=i, SLAB_QUARANTINE_RANDOM_LENGTH=q, SLAB_QUARANTINE_QUEUE_LENGTH=q, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=f,
                   name="range-1M,guard-slabs-%d,slab-quarantine-%d,free-slabs-%d%s" % (i, q, f, "".join(",%s=%s" % x for x in k.items())), **k)
    # class 32: 4096 bytes (8 slots, 32 KiB slab); 7: 112 bytes (36 slots, 4 KiB slab); 36: 16384; 48: 131072 (1 slot); 38: 24576; 33: 5120; 41: 40960; 0 excluded (C15)
    for i, ks in ((1, (32, 48, 35, 41, 38)), (2, (32, 48, 36)), (3, (30, 48, 37)), (5, (33, 37, 44))):
        for f in (0, 2):
            for k in ks if f == 0 else ks[:2]:
                C = cfg(i, 0, f, ZERO_ON_FREE=False, WRITE_AFTER_FREE_CHECK=False) if k % 2 == 0 else cfg(i, 0, f)
                r.append(Task("exhaust/%s/%d" % (C.name, k), C, exhausted, dict(cls=k, fsq=f, enum=16), setup=fill_setup, budget=B, reach=["end"]))
    C = cfg(1, 1, 2)
    r.append(Task("exhaust/%s/32" % C.name, C, exhausted, dict(cls=32, fsq=2), setup=fill_setup, budget=B, reach=["end"]))
    C = cfg(1, 0, 0, ZERO_ON_FREE=False, WRITE_AFTER_FREE_CHECK=False)
    r.append(Task("exhaust/%s/7" % C.name, C, exhausted, dict(cls=7, fsq=0, nslots=3), setup=fill_setup, budget=B, reach=["end"], max_paths=200))
    NOZ = dict(ZERO_ON_FREE=False, WRITE_AFTER_FREE_CHECK=False, SLAB_CANARY=False)
    n = 8 if T else 5
    for i in (1, 2, 3):
        for f in (0, 2):
            C = cfg(i, 0, f, **NOZ)
            r.append(Task("grow/%s/48" % C.name, C, grow, dict(cls=48, steps=n + 1, enum=8), budget=B, reach=["end"]))
            r.append(Task("grow/%s/44" % C.name, C, grow, dict(cls=44, steps=n, enum=8, slabs=2), budget=B, reach=["end"]))
        C = cfg(i, 0, 2, SLOT_RANDOMIZE=False, **NOZ)
        r.append(Task("grow/%s/36" % C.name, C, grow, dict(cls=36, steps=n + 1, enum=8), budget=B, reach=["end"]))
    C = cfg(2, 1, 2, **NOZ)
    r.append(Task("grow/%s/48" % C.name, C, grow, dict(cls=48, steps=n, enum=8), budget=B, reach=["end"]))
    r.append(Task("first/default", D, first, dict(cls=list(range(1, 49)), enum=256), budget=B * 2, reach=["end"]))
    r.append(Task("first/light", L, first, dict(cls=list(range(1, 49)), enum=256), budget=B, reach=["end"], max_paths=1500 if not T else 100000))
    r += fam.lists_tasks(Task, Cfg, B, steps=5 if T else 4)
    r += fam.lists_tasks(Task, Cfg, B, steps=4, cls=25)
    return r
