"""Shadow heap and oracles shared by the property checks.  Everything here is stated at the level of the documented API: requested and
usable sizes, documented size classes, addresses and accessibility of memory, system calls."""
from . import expr as X
from .expr import E, MASK
from .explore import Stop
from .env import NEG1
from .machine import Unsupported

PAGE = 4096
NULL = 0


def up(x, a=PAGE):
    return (x + a - 1) & ~(a - 1)


class Block:
    __slots__ = ("p", "req", "cls", "slot", "usable", "span", "arena", "live", "held", "n", "canary", "stamp", "guard", "fill", "align", "lo", "hi", "mark", "map")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, None)
        for a, b in k.items():
            setattr(self, a, b)


# ------------------------------------------------------------------ documented sizes
def doc_class(hm, req):
    """class index for a concrete request size, or None for the large allocator"""
    if req == 0:
        return 0
    n = req + hm.canary if req <= hm.maxslab else req
    if n > hm.maxslab:
        return None
    for i, s in enumerate(hm.sizes):
        if i and n <= s:
            return i


def class_range(hm, c):
    """smallest and largest request of a class"""
    if c == 0:
        return 0, 0
    lo = max(hm.sizes[c - 1] - hm.canary, 0) + 1
    return lo, hm.sizes[c] - hm.canary


def class_usable(hm, c):
    return hm.sizes[c] - hm.canary if c else 0


def large_round(hm, n):
    """documented size of a large allocation for internal size n (concrete)"""
    if hm.cfg["CONFIG_LARGE_SIZE_CLASSES"] != "true":
        return up(n)
    n = max(n, PAGE)
    k = (n - 1).bit_length() - 1
    return up(n, 1 << (k - 2)) if n > 128 else up(n, 16)


def large_usable(hm, req):
    """documented usable size of a large block for a request"""
    return large_round(hm, req + hm.canary if 0 < req <= hm.maxslab else req)


def large_classes(hm, limit):
    """ascending documented sizes of large allocations up to limit"""
    r = []
    n = hm.maxslab + 1
    if hm.cfg["CONFIG_LARGE_SIZE_CLASSES"] != "true":
        limit = min(limit, hm.maxslab + 64 * PAGE)
    while True:
        s = large_round(hm, n)
        if s > limit:
            return r
        r.append(s)
        n = s + 1


def large_range(hm, k, sizes):
    """request range of the k-th large size"""
    if k == "c":
        return hm.maxslab - hm.canary + 1, hm.maxslab
    lo = (sizes[k - 1] if k else hm.maxslab) + 1
    return lo, sizes[k]


def cls_arena_at(hm, addr):
    off = addr - hm.slab_start
    a = off // (hm.real * hm.nclass)
    return a, (off % (hm.real * hm.nclass)) // hm.real


def max_guard_pages(hm, size):
    return max((size // PAGE) // hm.guard_div, 1)


# ------------------------------------------------------------------ shadow heap
class Heap:
    """blocks known to the program, with the oracles applied at every step"""

    def __init__(self, c, checks=(), arena=0):
        self.c = c
        self.hm = c.hm
        self.M = c.M
        self.checks = set(checks)
        self.blocks = []     # live
        self.held = []       # freed, still held back (as far as the API user can tell)
        self.nfree = {}      # small frees per class and arena
        self.arena = arena
        self.n = 0

    def clone(self, c):
        h = Heap(c, self.checks, self.arena)
        h.blocks = list(self.blocks)
        h.held = list(self.held)
        h.nfree = dict(self.nfree)
        h.n = self.n
        return h

    # ---- allocation
    def malloc(self, req, cls=None, fn="h_malloc", args=None, may_fail=False):
        c = self.c
        p = c.call(fn, *(args if args is not None else (req,)))
        return self.got(p, req, cls, may_fail=may_fail)

    def got(self, p, req, cls="?", align=16, may_fail=False, arena=None, nozero=False, instead=None):
        """register and check a pointer returned for a request"""
        c, hm = self.c, self.hm
        if cls == "?" or cls is None and isinstance(req, int):
            cls = doc_class(hm, req)
        if cls == "large":       # over-aligned requests may be large whatever their size
            cls = None
        if may_fail and c.branch(X.eq(64, p, 0)):
            return None
        c.prove(X.ne(64, p, 0), "allocation returned NULL although memory is available")
        b = Block(p=p, req=req, cls=cls, arena=self.arena if arena is None else arena, live=True, align=align)
        self.n += 1
        b.n = self.n
        if cls is None:
            if arena is not None:
                b.arena = arena
            self.large(b)
        else:
            b.slot = hm.size_of(cls)
            b.usable = class_usable(hm, cls)
            b.span = b.slot
        if cls is not None and "place" in self.checks:
            base = hm.slab_start + (b.arena * hm.nclass + cls) * hm.real
            c.prove(X.ule(64, X.sub(64, p, base), hm.real - b.slot), "block outside the address range of its size class and arena")
        if "align" in self.checks:
            c.prove(X.eq(64, X.and_(64, p, align - 1), 0), "pointer not aligned to %d" % align)
        if "overlap" in self.checks:
            self.check_overlap(b)
        if "access" in self.checks:
            self.check_access(b)
        if "zero" in self.checks and cls != 0 and not nozero and (hm.zof or cls is None):
            self.check_zero(b)
        if "canary" in self.checks and cls and hm.canary:
            self.check_canary(b)
        self.blocks.append(b)
        if "usable" in self.checks:
            self.check_usable(b)
        return b

    def large(self, b):
        """size and reserved range of a large block (from the documented classes and the mappings made)"""
        c, hm, M = self.c, self.hm, self.M
        if isinstance(b.req, int):
            b.usable = large_usable(hm, b.req)
        elif b.usable is None:
            lo, hi = X.lo_(b.req), X.hi_(b.req)
            u = large_usable(hm, lo)
            b.usable = u if u == large_usable(hm, hi) else None
        b.span = b.usable
        if isinstance(b.p, int) and not M.plog:
            r = mapping_range(M, b.p)
            if r:
                b.lo, b.hi, b.map = r
        if "guard" in self.checks:
            self.check_guard(b)

    def check_guard(self, b):
        """one page .. documented maximum on both sides, reserved and inaccessible"""
        c, hm, M = self.c, self.hm, self.M
        if M.plog or isinstance(b.p, E):
            raise Unsupported("mapping of symbolic length")
        if b.lo is None:
            c.fail("large block outside any mapping")
        s = M.seg_at(b.p - 1)
        t = M.seg_at(b.p + b.usable)
        if s is None or s[2] & 3 or t is None or t[2] & 3:
            c.prot(b.p - 4096)
            c.prot(b.p + b.usable)
            c.fail("large block without a reserved inaccessible guard page directly before and after it")
        b.guard = b.p - b.lo
        after = b.hi - (b.p + b.usable)
        mx = max_guard_pages(hm, b.usable)
        if not PAGE <= b.guard <= mx * PAGE or after != b.guard:
            c.fail("guard sizes %#x and %#x, documented are equal guards of 1 to %d pages" % (b.guard, after, mx))
        if s[0] > b.lo or t[1] < b.hi:
            c.fail("part of the guard is accessible")

    def check_overlap(self, b):
        c = self.c
        for o in self.blocks:
            self.disjoint(b, o, "overlaps a live block")
        for o in self.held:
            if o.cls is not None and self.still_held(o):
                self.disjoint(b, o, "overlaps a freed block that is still held back")

    def still_held(self, o):
        """documented minimum quarantine: displaced at the earliest by the next free from the random array, then through the queue"""
        if o.stamp is None:
            return False
        lr, lq = quar_lengths(self.hm, o.cls)
        return self.nfree.get((o.arena, o.cls), 0) - o.stamp < lq + (1 if lr else 0)

    def disjoint(self, a, o, msg):
        c = self.c
        if a.span is None or o.span is None:
            return
        if not isinstance(a.p, E) and not isinstance(o.p, E) and not isinstance(a.span, E) and not isinstance(o.span, E):
            if a.p < o.p + o.span and o.p < a.p + a.span:
                c.fail("new block " + msg)
            return
        if a.cls is not None and a.cls == o.cls:
            # slots of one class: same grid
            c.prove(X.or_(1, X.ule(64, o.span, X.sub(64, a.p, o.p)), 0), "new block " + msg) if False else None
            d = X.sub(64, a.p, o.p)
            # |a.p - o.p| >= span
            c.prove(X.bor(X.and_(1, X.ule(64, o.p, a.p), X.ule(64, o.span, d)), X.and_(1, X.ult(64, a.p, o.p), X.ule(64, a.span, X.neg(64, d)))), "new block " + msg)
            return
        c.prove(X.bor(X.ule(64, X.add(64, o.p, o.span), a.p), X.ule(64, X.add(64, a.p, a.span), o.p)), "new block " + msg)

    def check_access(self, b, n=None):
        """all usable bytes readable and writable; nothing of a zero size block is"""
        c = self.c
        if b.cls == 0:
            p = b.p
            if isinstance(p, E):
                c.prove(X.not_(c.M.valid_cond(p, 1, 1)), "zero size block is accessible")
                c.prove(X.not_(c.M.valid_cond(p, 1, 2)), "zero size block is accessible")
            elif c.prot(p) != 0:
                c.fail("zero size block is accessible")
            return
        n = b.usable if n is None else n
        if b.cls is None and b.usable is None:
            n = b.req
        try:
            c.M.check_range(b.p, n, 1)
            c.M.check_range(b.p, n, 2)
        except Exception as e:
            if e.__class__.__name__ != "Segv":
                raise
            if not isinstance(e.addr, E):
                c.prot(e.addr)
            c.fail("usable bytes of a new block are not accessible")

    def check_zero(self, b, words=None, msg="new block is not zero"):
        """skolem word index"""
        c = self.c
        if b.usable is None:
            return
        n = (b.usable + 7) // 8 if words is None else words
        if n == 0:
            return
        k = c.size("zi", 0, n - 1)
        a = X.add(64, b.p, X.shl(64, k, 3))
        v = c.M.rdword(c.M._aligned(a) if isinstance(a, E) else a)
        if b.usable & 7 and not isinstance(v, E) and v == 0:
            return
        self.peek_on_fail(X.eq(64, v, 0), a, v, msg)

    def peek_on_fail(self, cond, a, v, msg):
        c = self.c
        ev = c.M.events
        ev.append(("peek", a, 8, v))
        c.prove(cond, msg)
        ev.pop()

    def canary_of(self, b):
        return self.c.M.rdword(self._al(X.add(64, b.p, b.usable)))

    def _al(self, a):
        return self.c.M._aligned(a) if isinstance(a, E) else a

    def check_canary(self, b):
        c = self.c
        a = X.add(64, b.p, b.usable)
        v = c.M.rdword(self._al(a))
        b.canary = v
        self.peek_on_fail(X.eq(64, X.and_(64, v, 255), 0), a, v, "first byte of the canary is not zero")

    def check_usable(self, b):
        c = self.c
        u = c.call("h_malloc_usable_size", b.p)
        if b.cls is not None:
            c.prove(X.eq(64, u, b.usable), "malloc_usable_size is not the documented usable size")
        else:
            c.prove(X.ule(64, b.req, u), "malloc_usable_size below the requested size")
        return u

    # ---- contents
    def mark(self, b, v=None):
        """the owner stores recognisable data in the first and last word it may use"""
        c = self.c
        u = b.usable if b.usable is not None else b.req
        if b.cls == 0 or isinstance(u, E) or u < 8:
            return
        self.nmark = getattr(self, "nmark", 0) + 1
        v = 0xc0de000000000001 + (self.nmark << 16) if v is None else v
        b.mark = [(0, v)]
        c.wr(b.p, v, 8)
        if u >= 16:
            o = (u - 8) & ~7
            b.mark.append((o, v + 1))
            c.wr(X.add(64, b.p, o), v + 1, 8)

    def verify(self, b, msg="contents of a live block changed", upto=None, at=None):
        c = self.c
        for o, v in b.mark or ():
            if upto is not None and o + 8 > upto:
                continue
            a = X.add(64, b.p if at is None else at, o)
            try:
                w = c.M.load(a, 8)
            except Exception as e:
                if e.__class__.__name__ != "Segv":
                    raise
                if not isinstance(a, E):
                    c.prot(a)
                c.fail(msg + " (not accessible)")
            self.peek_on_fail(X.eq(64, w, v), a, w, msg)

    def verify_all(self):
        for b in self.blocks:
            self.verify(b)

    # ---- resize
    def realloc(self, b, req, cls=None, may_fail=False):
        """returns the new block, or b itself when it stayed in place; None when it failed"""
        c, hm = self.c, self.hm
        old = b.p
        q = c.call("h_realloc", old, req)
        ncls = doc_class(hm, req) if cls is None and isinstance(req, int) else cls
        if may_fail and c.branch(X.eq(64, q, 0)):
            return None
        c.prove(X.ne(64, q, 0), "realloc returned NULL although memory is available")
        ou = b.usable
        if c.branch(X.eq(64, q, old)):
            if ncls != b.cls:
                if not (ncls is None and b.cls is None):
                    c.fail("realloc kept the block although the size class differs")
            b.req = req
            if b.cls is None:
                nu = large_usable(hm, req if isinstance(req, int) else X.lo_(req))
                self.verify(b, "realloc lost the contents", upto=min(ou, nu))
                b.usable = b.span = nu
                b.mark = [(o, v) for o, v in b.mark or () if o + 8 <= nu]
                if "access" in self.checks:
                    self.check_access(b)
            else:
                self.verify(b, "realloc lost the contents")
            return b
        if ncls == b.cls and b.cls is not None and b.align == 16:
            c.fail("realloc moved a block although its size class does not change")
        mk = b.mark
        nb = self.got(q, req, ncls, nozero=True, instead=b)
        keep = min(ou, X.lo_(req) if isinstance(req, E) else req)
        nb.mark = [(o, v) for o, v in mk or () if o + 8 <= keep]
        self.verify(nb, "realloc lost the contents")
        self.freed(b)
        return nb

    # ---- release
    def free(self, b, fn="h_free", args=None):
        c = self.c
        c.call(fn, *(args if args is not None else (b.p,)))
        self.freed(b)

    def freed(self, b):
        b.live = False
        self.blocks.remove(b)
        if b.cls is not None:
            k = (b.arena, b.cls)
            b.stamp = self.nfree.get(k, 0)
            self.nfree[k] = b.stamp + 1
            b.stamp += 1
        self.held.append(b)
        if "scrub" in self.checks and b.cls:
            self.check_zero(b, msg="freed block is not zero")


def mapping_range(M, a):
    """contiguous extent around a of the mapping it belongs to"""
    i = M._seg_index(a)
    if i < 0:
        return None
    mid = M.segs[i][4]
    j = i
    while j and M.segs[j - 1][4] == mid and M.segs[j - 1][1] == M.segs[j][0]:
        j -= 1
    k = i
    while k + 1 < len(M.segs) and M.segs[k + 1][4] == mid and M.segs[k + 1][0] == M.segs[k][1]:
        k += 1
    return M.segs[j][0], M.segs[k][1], mid


# ------------------------------------------------------------------ concrete set-ups
def fill(c, cls, n, arena=0, req=None):
    """n concrete allocations of a class (concrete randomness)"""
    hm = c.hm
    r = class_range(hm, cls)[1] if req is None else req
    out = []
    for _ in range(n):
        p = c.call("h_malloc", r)
        out.append(Block(p=p, req=r, cls=cls, slot=hm.size_of(cls), usable=class_usable(hm, cls), span=hm.size_of(cls), arena=arena, live=True))
    return out


def pollute(c, b, v=0xa5):
    """the owner writes to its block"""
    if b.usable:
        for o in range(0, b.usable - 7, max(8, (b.usable // 4) & ~7)):
            c.wr(b.p + o, v * 0x0101010101010101, 8)
        c.wr(b.p + b.usable - 8, v * 0x0101010101010101, 8) if b.usable >= 8 else None


def quar_shift(hm, size):
    """documented scaling of the slab quarantine lengths: lengths are for the largest class and double with every halving of the size"""
    return (hm.maxslab.bit_length() - 1) - (size.bit_length() - 1)


def quar_lengths(hm, cls):
    s = quar_shift(hm, hm.size_of(cls))
    return hm.qr << s, hm.qq << s


def rng_fresh(c, base):
    """make the remaining cached bytes of the generator at base symbolic (skipped when the layout is unknown)"""
    hm = c.hm
    lay, M = hm.lay, c.M
    if base is None or lay.get("rng_cache") is None or lay.get("rng_index") is None:
        return False
    idx = hm.rd(base + lay.rng_index, 4)
    if isinstance(idx, E):
        return False
    n = 256
    if idx >= n:
        return False
    # find the keystream event that filled this cache
    want = [hm.rd(base + lay.rng_cache + i, 1) for i in range(0, n)]
    for i in range(len(M.events) - 1, -1, -1):
        e = M.events[i]
        if e[0] == "ks" and e[2] == n:
            by = []
            for w in e[3]:
                by += [X.extract(w, 8 * k + 7, 8 * k) if isinstance(w, E) else (w >> (8 * k)) & 255 for k in range(8)]
            if by[:n] == want:
                vals = list(e[3])
                k0 = (idx + 7) // 8
                if idx & 7 and not isinstance(vals[idx // 8], E):
                    # the unused part of a partly used word
                    k = idx // 8
                    u = 8 * (idx & 7)
                    v = X.concat(M.fresh("rk%x_%d" % (base & 0xffffff, k), 64 - u), 64 - u, vals[k] & ((1 << u) - 1), u)
                    vals[k] = v
                    M.wrbase_any(base + lay.rng_cache + 8 * k, v)
                for k in range(k0, n // 8):
                    v = M.fresh("rk%x_%d" % (base & 0xffffff, k), 64)
                    vals[k] = v
                    M.wrbase_any(base + lay.rng_cache + 8 * k, v)
                ev = list(e)
                ev[3] = vals
                M.events[i] = tuple(ev)
                return True
    return False


def class_rng(c, cls, arena=0):
    hm = c.hm
    if hm.state is None or hm.lay.get("sc_rng") is None or hm.lay.get("sizeof_size_class") is None:
        return None
    return hm.sc(arena, cls) + hm.lay.sc_rng


def region_rng(c):
    hm = c.hm
    if hm.state is None or hm.lay.get("off_region_allocator") is None or hm.lay.get("ra_rng") is None:
        return None
    return hm.state + hm.lay.off_region_allocator + hm.lay.ra_rng


def fresh(c, *classes, arena=0, region=False):
    """every later random draw of these classes (and of the region allocator) is arbitrary"""
    c.symbolic_random()
    for k in classes:
        rng_fresh(c, class_rng(c, k, arena))
    if region:
        rng_fresh(c, region_rng(c))


def expect_fatal(c, fn, *args, msg=None):
    k, v = c.attempt(fn, *args)
    if k != "fatal":
        c.fail((msg or "%s was not detected" % fn) + " (%s %s)" % (k, hex(v) if isinstance(v, int) else v))
    c.reach("fatal")
    return v
