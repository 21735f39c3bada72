"""Symbolic machine: memory, permissions, path decisions, environment (kernel / libc / pthread) model, exploration."""
import bisect
import time
from . import expr as X
from . import solve as S
from .expr import E, MASK
from .trans import Program, pyname, Unsupported

PAGE = 4096
STACK_TOP = 0x7FF000000000
TLS_BASE = 0x7FE000000000
USER_BASE = 0x600000000000     # memory of the program under test, 1 MiB
STACK_SIZE = 0x100000
MMAP_START = 0x100000000000
ENOMEM, EINVAL, EINTR, EAGAIN, EPERM, EIO = 12, 22, 4, 11, 1, 5
UNDEF = 8   # prot flag: uninitialised contents are arbitrary
M64 = MASK[64]


class PathEnd(Exception):
    """path abandoned (infeasible or outside the stated bounds)"""


class Fatal(Exception):
    """abort() / fatal_error reached"""

    def __init__(self, msg):
        Exception.__init__(self, msg)
        self.msg = msg


class Segv(Exception):
    def __init__(self, addr, kind, end=None):
        Exception.__init__(self, "segv %s" % kind)
        self.addr = addr
        self.kind = kind
        self.end = end      # a bulk operation may fault anywhere up to here


class Hang(Exception):
    """deadlock or unbounded loop"""


class Terminate(Exception):
    """std::terminate"""


class CxxThrow(Exception):
    def __init__(self, ti):
        Exception.__init__(self, "throw")
        self.ti = ti


class Violation(Exception):
    def __init__(self, msg, model):
        Exception.__init__(self, msg)
        self.msg = msg
        self.model = model


class Wd:
    """log entry: one 8-byte word written at a (possibly symbolic) address"""
    __slots__ = ("wa", "val", "lo", "hi")

    def __init__(self, wa, val):
        self.wa = wa
        self.val = val
        self.lo = X.lo_(wa)
        self.hi = X.hi_(wa) + 8

    def cond(self, wa):
        return X.eq(64, wa, self.wa)

    def value(self, M, wa):
        return self.val


class Rng:
    """log entry: every word in [a, b) gets fn(wa) (or a constant)"""
    __slots__ = ("a", "b", "val", "lo", "hi")

    def __init__(self, a, b, val):
        self.a = a
        self.b = b
        self.val = val
        self.lo = X.lo_(a)
        self.hi = X.hi_(b)

    def cond(self, wa):
        # a <= wa < b without wrap (regions never wrap)
        d = X.sub(64, wa, self.a)
        n = X.sub(64, self.b, self.a)
        return X.ult(64, d, n)

    def value(self, M, wa):
        return self.val(M, wa) if callable(self.val) else self.val


def _split(a):
    """(word address, byte offset) if the low three bits are known, else None"""
    if a.kz & 7 == 7:
        return a, 0
    if a.op == "add" and not isinstance(a.a[1], E) and isinstance(a.a[0], E) and a.a[0].kz & 7 == 7:
        c = a.a[1]
        return X.add(64, a.a[0], c & ~7 & M64), c & 7
    return None


class Machine:
    def __init__(self, prog):
        self.prog = prog
        self.cov = bytearray(len(prog.cov_names) + 8)
        self.hooks = {}
        self.reset()

    # ------------------------------------------------------------------ state
    def reset(self):
        self.pages = {}
        self.own = set()
        self.segs = []          # sorted disjoint (start, end, prot, pkey, mapid)
        self.pcs = {}
        self.pkru = 0           # bit mask of keys with access disabled, current thread
        self.pc_ = self.pcs.setdefault(0, {})
        self.slog = []
        self.plog = []          # symbolic-range protection updates (a, b, prot, pkey, mapid)
        self.sp = STACK_TOP - 64
        self.tid = 0
        self.mmap_next = MMAP_START
        self.events = []
        self.ghost = {}
        self.locks = {}         # mutex address -> owner tid
        self.atomic = 0
        self.aord = 0
        self.nfresh = {}
        self.exc = None
        self.atfork = None
        self.stderr = []
        self.mapn = 0
        self.kviol = []
        # path
        self.pc = []
        self.model = {}
        self.trace = []
        self.prefix = []
        self.proved = {}
        self.nonuniq = set()
        self.work = None
        self.inconclusive = []
        self.watch = None
        self.sched = None
        self.timeout = 20.0

    def snap(self):
        self.own = set()
        return (dict(self.pages), list(self.segs), self.pkru, list(self.slog), list(self.plog), self.sp, self.tid, self.mmap_next,
                list(self.events), dict(self.ghost), dict(self.locks), dict(self.nfresh), self.atfork, self.mapn, list(self.kviol))

    def restore(self, s):
        (pages, segs, self.pkru, slog, plog, self.sp, self.tid, self.mmap_next, ev, gh, lk, nf, self.atfork, self.mapn, kv) = s
        self.pages = dict(pages)
        self.own = set()
        self.segs = list(segs)
        self.pcs = {}
        self.pc_ = self.pcs.setdefault(self.pkru, {})
        self.slog = list(slog)
        self.plog = list(plog)
        self.events = list(ev)
        self.ghost = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in gh.items()}
        self.locks = dict(lk)
        self.nfresh = dict(nf)
        self.kviol = list(kv)
        self.atomic = 0
        self.aord = 0
        self.stderr = []

    # ------------------------------------------------------------------ symbols
    def fresh(self, name, w):
        k = self.nfresh.get(name, 0)
        self.nfresh[name] = k + 1
        return X.var("%s.%d:%d" % (name, k, w), w)

    # ------------------------------------------------------------------ path decisions
    def feasible(self, c):
        """pc and c satisfiable?  returns (result, model of the slice)"""
        if not isinstance(c, E):
            return (S.SAT, {}) if c else (S.UNSAT, None)
        if time.time() > self.deadline:
            raise PathEnd("time limit")
        return S.check(S.slice_(self.pc, c) + [c], self.timeout)

    def add_pc(self, c):
        if isinstance(c, E):
            if c.op == "and" and c.w == 1:
                self.add_pc(c.a[0])
                self.add_pc(c.a[1])
                return
            self.pc.append(c)

    def val(self, e):
        return X.ev(e, self.model)

    def cond(self, c):
        return self.decide(c) if c.__class__ is not int else c

    def decide(self, c):
        if not isinstance(c, E):
            return c
        k = self.proved.get(c)
        if k is not None:
            return k
        i = len(self.trace)
        if i < len(self.prefix):
            r = self.prefix[i]
            self.trace.append(r)
            self._commit(c, r)
            return r
        v = 1 if self.val(c) else 0
        S.stats.model_hits += 1
        if self.prefer0:
            # inside a bounded random draw: only draws that are accepted at once (C22 decides the others)
            self.trace.append(v)
            self._commit(c, v)
            return v
        other = X.not_(c) if v else c
        res, md = self.feasible(other)
        if res == S.SAT:
            if self.work is not None:
                m2 = dict(self.model)
                m2.update(md)
                self.work.append((list(self.trace) + [1 - v], m2))
            self.trace.append(v)
            self.ndec += 1
            self._commit(c, v)
            return v
        if res == S.UNKNOWN:
            self.inconclusive.append("branch")
        self.trace.append(v)
        self._commit(c, v)
        return v

    ndec = 0

    def _commit(self, c, r):
        self.proved[c] = r
        n = X.not_(c)
        if isinstance(n, E):
            self.proved[n] = 1 - r
        self.add_pc(c if r else n)

    def assume(self, c):
        if not isinstance(c, E):
            if not c:
                raise PathEnd("assume")
            return
        if not self.val(c):
            res, md = self.feasible(c)
            if res != S.SAT:
                if res == S.UNKNOWN:
                    self.inconclusive.append("assume")
                raise PathEnd("assume")
            self.model = dict(self.model)
            self.model.update(md)
        self.proved[c] = 1
        self.nonuniq = set()
        self.add_pc(c)

    def sel(self, w, c, a, b):
        k = self.proved.get(c)
        if k is not None:
            return a if k else b
        return X.ite(w, c, a, b)

    def bounds(self, e):
        """[lo, hi] containing every value of e on this path (tightened by the solver, within a factor of 8)"""
        lo, hi = X.lo_(e), X.hi_(e)
        k = self.proved.get(("r", e))
        if k is not None:
            return max(lo, k[0]), min(hi, k[1])
        i = len(self.trace)
        v = self.pick(e)
        d = 64
        while v + d < hi:
            if self.must(X.ule(e.w, e, v + d)):
                hi = v + d
                break
            d *= 8
        d = 64
        while v - d > lo:
            if self.must(X.ule(e.w, v - d, e)):
                lo = v - d
                break
            d *= 8
        self.proved[("r", e)] = (lo, hi)
        return lo, hi

    def must(self, c):
        """is c implied by the path?  1 / 0 (False: not implied)"""
        if not isinstance(c, E):
            return c
        k = self.proved.get(c)
        if k is not None:
            return k
        if not self.val(c):
            return 0
        res, md = self.feasible(X.not_(c))
        if res == S.UNSAT:
            self.proved[c] = 1
            return 1
        if res == S.UNKNOWN:
            self.inconclusive.append("must")
        return 0

    def resolve(self, c):
        """c simplified to a constant when the path decides it"""
        if not isinstance(c, E):
            return c
        k = self.proved.get(c)
        if k is not None:
            return k
        if self.val(c):
            return 1 if self.must(c) else c
        n = X.not_(c)
        return 0 if self.must(n) else c

    def prove(self, c, msg):
        """obligation"""
        self.nobl += 1
        if not isinstance(c, E):
            if not c:
                raise Violation(msg, dict(self.model))
            return
        if self.proved.get(c) == 1:
            return
        if not self.val(c):
            raise Violation(msg, dict(self.model))
        res, md = self.feasible(X.not_(c))
        if res == S.SAT:
            m = dict(self.model)
            m.update(md)
            raise Violation(msg, m)
        if res == S.UNKNOWN:
            self.inconclusive.append("prove: " + msg)
            return
        self.proved[c] = 1

    nobl = 0
    prefer0 = 0
    draw_depth = 0
    draw_count = 0
    max_draws = 2
    links = ()
    linkbits = {}
    raw = ()
    fast_draws = True
    deadline = 1e18

    def conc(self, e):
        """the unique value of e on this path, or None"""
        if not isinstance(e, E):
            return e
        k = self.proved.get(("u", e))
        if k is not None:
            return k
        if e in self.nonuniq:
            return None
        v = self.val(e)
        if self.must(X.eq(e.w, e, v)):
            self.proved[("u", e)] = v
            return v
        self.nonuniq.add(e)
        return None

    def choose(self, e, limit=4096):
        """fork over all feasible values of e"""
        if not isinstance(e, E):
            return e
        for _ in range(limit):
            v = self.pick(e)
            if self.decide(X.eq(e.w, e, v)):
                return v
        self.inconclusive.append("choose limit")
        raise PathEnd("choose limit")

    def pick(self, e):
        """a value of e under the current model, recorded so that re-execution makes the same choice"""
        if not isinstance(e, E):
            return e
        i = len(self.trace)
        v = self.prefix[i] if i < len(self.prefix) else self.val(e)
        self.trace.append(v)
        return v

    # ------------------------------------------------------------------ protection map
    def _seg_index(self, a):
        i = bisect.bisect_right(self.segs, (a, 1 << 70)) - 1
        if i >= 0 and self.segs[i][1] > a:
            return i
        return -1

    def seg_at(self, a):
        i = self._seg_index(a)
        return self.segs[i] if i >= 0 else None

    def prot(self, pg):
        a = pg << 12
        for u in reversed(self.plog):
            if u[5] <= a < u[6]:
                # symbolic-range update: resolve
                c = self.resolve(X.and_(1, X.ule(64, u[0], a), X.ult(64, a, u[1])))
                if isinstance(c, E):
                    c = self.decide(c)
                if c:
                    return self._pk(u[2], u[3])
        s = self.seg_at(a)
        p = self._pk(s[2], s[3]) if s else 0
        if not self.plog:
            self.pc_[pg] = p
        return p

    def _pk(self, prot, pkey):
        if pkey and (self.pkru >> pkey) & 1:
            return 16   # pkey denied
        if pkey and (self.pkru >> 16 >> pkey) & 1:
            return prot & ~2 | 16
        return prot

    def flush_prot(self):
        self.pcs = {}
        self.pc_ = self.pcs.setdefault(self.pkru, {})

    def set_pkru(self, v):
        self.pkru = v
        self.pc_ = self.pcs.setdefault(v, {})

    def seg_replace(self, a, b, new):
        """replace [a,b) by new segment tuple tail (prot,pkey,mapid) or None (unmap), or a function(old seg) -> tail"""
        out = []
        lo = bisect.bisect_right(self.segs, (a, 1 << 70)) - 1
        if lo < 0:
            lo = 0
        i = lo
        n = len(self.segs)
        pre = []
        while i < n and self.segs[i][1] <= a:
            i += 1
        j = i
        while j < n and self.segs[j][0] < b:
            s = self.segs[j]
            if s[0] < a:
                pre.append((s[0], a) + s[2:])
            if callable(new):
                x, y = max(s[0], a), min(s[1], b)
                pre.append((x, y) + new(s))
            if s[1] > b:
                pre.append((b, s[1]) + s[2:])
            j += 1
        if new is not None and not callable(new):
            pre.append((a, b) + new)
        pre.sort()
        # merge
        res = []
        for s in pre:
            if res and res[-1][1] == s[0] and res[-1][2:] == s[2:]:
                res[-1] = (res[-1][0], s[1]) + s[2:]
            else:
                res.append(s)
        self.segs[i:j] = res
        # merge with neighbours
        k = i
        while k > 0 and k < len(self.segs) and self.segs[k - 1][1] == self.segs[k][0] and self.segs[k - 1][2:] == self.segs[k][2:]:
            self.segs[k - 1:k + 1] = [(self.segs[k - 1][0], self.segs[k][1]) + self.segs[k][2:]]
            k -= 1
        k = i + len(res) - 1
        if 0 <= k < len(self.segs) - 1 and self.segs[k + 1][0] == self.segs[k][1] and self.segs[k + 1][2:] == self.segs[k][2:]:
            self.segs[k:k + 2] = [(self.segs[k][0], self.segs[k + 1][1]) + self.segs[k][2:]]
        self.flush_prot()

    def covered(self, a, b):
        """is [a,b) fully mapped; list of mapids"""
        ids = []
        x = a
        while x < b:
            s = self.seg_at(x)
            if s is None:
                return None
            ids.append(s[4])
            x = s[1]
        return ids

    def covered_none(self, a, b):
        """is nothing of [a,b) mapped"""
        return not any(s[0] < b and a < s[1] for s in self.segs)

    def discard(self, a, b):
        """contents of [a,b) become zero"""
        pa, pb = a >> 12, b >> 12
        if pb - pa > len(self.pages):
            for pg in [p for p in self.pages if pa <= p < pb]:
                del self.pages[pg]
                self.own.discard(pg)
        else:
            for pg in range(pa, pb):
                if pg in self.pages:
                    del self.pages[pg]
                    self.own.discard(pg)
        if self.slog and any(e.lo < b and e.hi > a for e in self.slog):
            self.slog.append(Rng(a, b, 0))

    # ------------------------------------------------------------------ memory access
    def segv(self, a, kind, end=None):
        raise Segv(a, kind, end)

    def _slogged(self, a, b):
        for e in self.slog:
            if e.lo < b and e.hi > a:
                return True
        return False

    def rdbase(self, wa):
        """word at concrete aligned address from the base store"""
        p = self.pages.get(wa >> 12)
        if p is not None:
            v = p.get((wa & 4095) >> 3)
            if v is not None:
                return v
        s = self.seg_at(wa)
        if s is not None and s[2] & UNDEF:
            v = self.fresh("undef", 64)
            self.wrbase(wa, v)
            return v
        return 0

    def wrbase(self, wa, v):
        pg = wa >> 12
        p = self.pages.get(pg)
        if p is None:
            p = self.pages[pg] = {}
            self.own.add(pg)
        elif pg not in self.own:
            p = self.pages[pg] = dict(p)
            self.own.add(pg)
        p[(wa & 4095) >> 3] = v

    def wrbase_any(self, a, v):
        """write a 64-bit value at a concrete, possibly misaligned address, ignoring protection"""
        b = a & 7
        if b == 0:
            self.wrbase(a, v)
            return
        self.wrbase(a - b, merge(self.rdbase(a - b), X.trunc(64 - 8 * b, v), b, 8 - b))
        self.wrbase(a - b + 8, merge(self.rdbase(a - b + 8), X.extract(v, 63, 64 - 8 * b), 0, b))

    def rdword(self, wa, slog=None, pages=None):
        """word at aligned address (int or E)"""
        if isinstance(wa, E):
            lo, hi = self.bounds(wa) if wa.hi - wa.lo > 4096 else (wa.lo, wa.hi)
        else:
            lo = hi = wa
        chain = []
        base = None
        for e in reversed(self.slog if slog is None else slog):
            if e.hi <= lo or e.lo > hi:
                continue
            c = e.cond(wa)
            if isinstance(c, E):
                c = self.resolve(c)
            if not isinstance(c, E):
                if c:
                    base = e.value(self, wa)
                    break
                continue
            chain.append((c, e.value(self, wa)))
        if base is None:
            if isinstance(wa, int):
                if pages is None:
                    base = self.rdbase(wa)
                else:
                    p = pages.get(wa >> 12)
                    base = p.get((wa & 4095) >> 3, 0) if p else 0
            else:
                base = self.rdbase_sym(wa, pages, lo, hi)
        for c, v in reversed(chain):
            base = X.ite(64, c, v, base)
        return base

    def rdbase_sym(self, wa, pages=None, lo=None, hi=None):
        if lo is None:
            lo, hi = self.bounds(wa)
        pages = self.pages if pages is None else pages
        pa, pb = lo >> 12, hi >> 12
        if pb - pa > 4 * len(pages):
            pgs = sorted(p for p in pages if pa <= p <= pb)
        else:
            pgs = [p for p in range(pa, pb + 1) if p in pages]
        cand = []
        for pg in pgs:
            for k, v in pages[pg].items():
                if not isinstance(v, E) and v == 0:
                    continue
                a = (pg << 12) + (k << 3)
                if a < lo or a > hi or a & wa.kz:
                    continue
                c = X.eq(64, wa, a)
                if not isinstance(c, E) and not c:
                    continue
                cand.append((c, v))
        if len(cand) > 24:
            # keep only feasible ones
            cand = self.feasible_cands(wa, cand)
        # group equal values
        by = {}
        for c, v in cand:
            by.setdefault(v, []).append(c)
        r = 0
        for v, cs in by.items():
            r = X.ite(64, X.bor(*cs), v, r)
        return r

    def feasible_cands(self, wa, cand):
        """drop candidates that the path excludes: ask for a value outside the found set until none is left"""
        left = list(cand)
        found = []
        for _ in range(80):
            if not left:
                return found
            q = X.bor(*[c for c, v in left])
            if not isinstance(q, E):
                break
            k = self.proved.get(q)
            if k == 0:
                return found
            res, md = self.feasible(q)
            if res == S.UNSAT:
                return found
            if res != S.SAT:
                break
            m = dict(self.model)
            m.update(md)
            hit = [(c, v) for c, v in left if X.ev(c, m)]
            found += hit
            hs = set(id(c) for c, v in hit)
            left = [(c, v) for c, v in left if id(c) not in hs]
        return found + left

    def load(self, a, n):
        if a.__class__ is not int:
            return self.load_sym(a, n)
        pr = self.pc_.get(a >> 12)
        if pr is None:
            pr = self.prot(a >> 12)
        if not pr & 1:
            self.segv(a, "r")
        if self.watch is not None:
            self.watch(a, n, 0)
        b = a & 7
        if b + n <= 8:
            wa = a - b
            if self.slog and self._slogged(wa, wa + 8):
                v = self.rdword(wa)
            else:
                p = self.pages.get(a >> 12)
                v = p.get((a & 4095) >> 3) if p is not None else None
                if v is None:
                    v = self.rdbase(wa) if pr & UNDEF else 0
            if n == 8:
                return v
            if v.__class__ is int:
                return (v >> (8 * b)) & MASK[8 * n]
            return X.extract(v, 8 * b + 8 * n - 1, 8 * b)
        # crossing a word boundary
        r, sh = 0, 0
        while n > 0:
            k = min(n, 8 - (a & 7))
            v = self.load(a, k)
            r = X.concat(v, 8 * k, r, sh) if sh else v
            sh += 8 * k
            a += k
            n -= k
        return r

    def store(self, a, n, v):
        if a.__class__ is not int:
            return self.store_sym(a, n, v)
        pr = self.pc_.get(a >> 12)
        if pr is None:
            pr = self.prot(a >> 12)
        if not pr & 2:
            self.segv(a, "w")
        if self.watch is not None:
            self.watch(a, n, 1)
        b = a & 7
        if b + n > 8:
            while n > 0:
                k = min(n, 8 - (a & 7))
                self.store(a, k, v & MASK[8 * k] if v.__class__ is int else X.extract(v, 8 * k - 1, 0))
                if n > k:
                    v = v >> (8 * k) if v.__class__ is int else X.extract(v, 8 * n - 1, 8 * k)
                a += k
                n -= k
            return
        wa = a - b
        sl = self.slog and self._slogged(wa, wa + 8)
        if n != 8:
            old = self.rdword(wa) if sl else self.rdbase(wa)
            v = merge(old, v, b, n)
        if sl:
            self.slog.append(Wd(wa, v))
            return
        pg = a >> 12
        p = self.pages.get(pg)
        if p is None:
            p = self.pages[pg] = {}
            self.own.add(pg)
        elif pg not in self.own:
            p = self.pages[pg] = dict(p)
            self.own.add(pg)
        p[(a & 4095) >> 3] = v

    def access_sym(self, a, n, bit):
        """permission check for a symbolic address; n may be symbolic"""
        for _ in range(64):
            v = self.pick(a)
            s = self.region_around(v, bit)
            if s is None:
                # model value faults: is a valid access possible at all?
                c = self.valid_cond(a, n, bit)
                if self.decide(c):
                    continue
                self.segv(a, "w" if bit & 2 else "r")
            lo, hi = s
            if isinstance(n, E):
                c = X.band(X.ule(64, lo, a), X.ule(64, a, hi), X.ule(64, n, X.sub(64, hi, a)))
            else:
                c = X.ule(64, X.sub(64, a, lo), hi - lo - n) if hi - lo >= n else 0
            if self.must(c):
                return
            c = self.decide(c)
            if c:
                return
        raise PathEnd("access_sym")

    def region_around(self, v, bit):
        """maximal [lo,hi) of accessible memory around v"""
        if self.plog:
            return self.region_plog(v, bit)
        i = self._seg_index(v)
        if i < 0:
            return None
        ok = lambda s: self._pk(s[2], s[3]) & bit == bit
        if not ok(self.segs[i]):
            return None
        lo, hi = self.segs[i][0], self.segs[i][1]
        j = i - 1
        while j >= 0 and self.segs[j][1] == lo and ok(self.segs[j]):
            lo = self.segs[j][0]
            j -= 1
        j = i + 1
        while j < len(self.segs) and self.segs[j][0] == hi and ok(self.segs[j]):
            hi = self.segs[j][1]
            j += 1
        return lo, hi

    def region_plog(self, v, bit):
        pg = v >> 12
        if not self.prot(pg) & bit:
            return None
        return pg << 12, (pg + 1) << 12

    def valid_cond(self, a, n, bit):
        if not self.plog:
            return self.valid_cond0(a, n, bit)
        if n != 1:
            return X.and_(1, self.valid_cond(a, 1, bit), self.valid_cond(X.add(64, a, n - 1), 1, bit))
        r = self.valid_cond0(a, 1, bit)
        for u in self.plog:
            if X.hi_(a) < u[5] or X.lo_(a) >= u[6]:
                continue
            r = X.ite(1, X.and_(1, X.ule(64, u[0], a), X.ult(64, a, u[1])), 1 if self._pk(u[2], u[3]) & bit == bit else 0, r)
        return r

    def valid_cond0(self, a, n, bit):
        lo, hi = X.lo_(a), X.hi_(a)
        r = 0
        i = max(0, bisect.bisect_right(self.segs, (lo, 1 << 70)) - 1)
        k = 0
        while i < len(self.segs) and self.segs[i][0] <= hi:
            s = self.segs[i]
            if s[1] > lo and self._pk(s[2], s[3]) & bit == bit:
                x, y = self.region_around(s[0], bit)
                nn = n if isinstance(n, int) else 1
                if y - x >= nn:
                    r = X.bor(r, X.and_(1, X.ule(64, x, a), X.ule(64, a, y - nn)))
                k += 1
                while i < len(self.segs) and self.segs[i][1] <= y:
                    i += 1
                continue
            i += 1
        return r

    def load_sym(self, a, n):
        v = self.conc(a)
        if v is not None:
            return self.load(v, n)
        sp = _split(a)
        if sp is None:
            lowv = self.choose(X.extract(a, 2, 0))
            sp = (X.sub(64, a, lowv), lowv)
            sp = (self._aligned(sp[0]), lowv)
        wa, b = sp
        self.access_sym(a, n, 1)
        if self.watch is not None:
            self.watch(a, n, 0)
        if b + n <= 8:
            v = self.rdword(wa)
            if n == 8:
                return v
            return X.extract(v, 8 * b + 8 * n - 1, 8 * b)
        r, sh = 0, 0
        off = 0
        while n > 0:
            k = min(n, 8 - b)
            w = self.rdword(X.add(64, wa, off))
            w = X.extract(w, 8 * b + 8 * k - 1, 8 * b)
            r = X.concat(w, 8 * k, r, sh) if sh else w
            sh += 8 * k
            n -= k
            b = 0
            off += 8
        return r

    def _aligned(self, wa):
        """wa is known (by path) to be 8-aligned: make that syntactic"""
        if not isinstance(wa, E) or wa.kz & 7 == 7:
            return wa
        return X.shl(64, X.zext(64, X.extract(wa, 63, 3)), 3)

    def store_sym(self, a, n, v):
        c = self.conc(a)
        if c is not None:
            return self.store(c, n, v)
        sp = _split(a)
        if sp is None:
            lowv = self.choose(X.extract(a, 2, 0))
            sp = (self._aligned(X.sub(64, a, lowv)), lowv)
        wa, b = sp
        self.access_sym(a, n, 2)
        if self.watch is not None:
            self.watch(a, n, 1)
        self.put_sym(wa, b, n, v)

    def put_sym(self, wa, b, n, v):
        while n > 0:
            k = min(n, 8 - b)
            part = v if k == n else X.trunc(8 * k, v)
            if k != 8:
                old = self.rdword(wa)
                part = merge(old, part, b, k)
            self.slog.append(Wd(wa, part))
            if n > k:
                v = X.extract(v, 8 * n - 1, 8 * k)
            n -= k
            b = 0
            wa = X.add(64, wa, 8)

    # ------------------------------------------------------------------ bulk operations
    def check_range(self, p, n, bit):
        """permission check of [p,p+n)"""
        if not isinstance(n, E) and n == 0:
            return
        end = X.add(64, p, n) if isinstance(p, E) or isinstance(n, E) else p + n
        if isinstance(p, E) or isinstance(n, E):
            if isinstance(n, E):
                if self.decide(X.eq(64, n, 0)):
                    return
            if not isinstance(p, E):
                s = self.region_around(p, bit)
                if s is None:
                    self.segv(p, "range", end)
                if self.plog:
                    # protections with symbolic bounds: page by page
                    for _ in range(600):
                        if self.must(X.ule(64, n, s[1] - p)) or self.decide(X.ule(64, n, s[1] - p)):
                            return
                        e = s[1]
                        s = self.region_around(e, bit)
                        if s is None:
                            self.segv(e, "range", end)
                    raise PathEnd("long access over memory with symbolic bounds")
                c = X.ule(64, n, s[1] - p)
                if not self.decide(c):
                    self.segv(s[1], "range", end)
                return
            self.access_sym(p, n, bit)
            return
        a = p & ~4095
        while a < p + n:
            pr = self.pc_.get(a >> 12)
            if pr is None:
                pr = self.prot(a >> 12)
            if not pr & bit:
                self.segv(max(a, p), "range", end)
            if n > 1 << 20:
                s = self.region_around(max(a, p), bit)
                if s is None:
                    self.segv(max(a, p), "range", end)
                a = s[1]
                continue
            a += 4096

    def memset(self, p, c, n):
        pu, nu = self.conc(p), self.conc(n)
        if pu is not None:
            p = pu
        if nu is not None:
            n = nu
        self.check_range(p, n, 2)
        if self.watch is not None:
            self.watch(p, n, 1)
        if isinstance(n, int) and n == 0:
            return p
        if isinstance(c, E):
            c = X.trunc(8, c)
            wv = c
            for k in range(7):
                wv = X.concat(c, 8, wv, 8 * (k + 1))
        else:
            c &= 255
            wv = c * 0x0101010101010101
        self.fill(p, n, wv)
        return p

    def fill(self, p, n, wv):
        """[p,p+n) gets the byte pattern of word wv (same bytes); no permission checks"""
        if isinstance(p, int) and isinstance(n, int):
            end = p + n
            if not (self.slog and self._slogged(p & ~7, (end + 7) & ~7)):
                a = p
                if a & 7:
                    k = min(8 - (a & 7), n)
                    self._put(a, k, X.trunc(8 * k, wv))
                    a += k
                while a + 8 <= end:
                    if a & 4095 == 0 and end - a >= 4096 and not isinstance(wv, E) and wv == 0:
                        self.pages[a >> 12] = {}
                        self.own.add(a >> 12)
                        a += 4096
                        continue
                    self.wrbase(a, wv)
                    a += 8
                if a < end:
                    self._put(a, end - a, X.trunc(8 * (end - a), wv))
                return
        if isinstance(n, int):
            sp = (p & ~7, p & 7) if isinstance(p, int) else _split(p)
            if sp is None:
                lowv = self.choose(X.extract(p, 2, 0))
                sp = (self._aligned(X.sub(64, p, lowv)), lowv)
            wa, b = sp
            if b:
                k = min(8 - b, n)
                self.put_sym(wa, b, k, X.trunc(8 * k, wv))
                n -= k
                wa = X.add(64, wa, 8)
            if n >= 8:
                self.slog.append(Rng(wa, X.add(64, wa, n & ~7), wv))
                wa = X.add(64, wa, n & ~7)
            if n & 7:
                self.put_sym(wa, 0, n & 7, X.trunc(8 * (n & 7), wv))
            return
        # symbolic length
        sp = (p & ~7, p & 7) if isinstance(p, int) else _split(p)
        if sp is None or sp[1]:
            raise Unsupported("memset: unaligned with symbolic length")
        wa = sp[0]
        full = X.and_(64, n, ~7 & M64)
        tail = X.extract(n, 2, 0)
        self.slog.append(Rng(wa, X.add(64, wa, full), wv))
        if isinstance(tail, E):
            tail = self.choose(tail)
        if tail:
            self.put_sym(self._aligned(X.add(64, wa, full)), 0, tail, X.trunc(8 * tail, wv))

    def _put(self, a, n, v):
        wa = a & ~7
        old = self.rdbase(wa)
        self.wrbase(wa, v if n == 8 else merge(old, v, a & 7, n))

    def memcpy(self, d, s, n):
        nu = self.conc(n)
        if nu is not None:
            n = nu
        if isinstance(n, int) and n == 0:
            return d
        du, su = self.conc(d), self.conc(s)
        if du is not None:
            d = du
        if su is not None:
            s = su
        self.check_range(s, n, 1)
        self.check_range(d, n, 2)
        if self.watch is not None:
            self.watch(s, n, 0)
            self.watch(d, n, 1)
        if isinstance(n, int) and n <= 1024:
            # element wise, read all first
            parts = []
            k = 0
            step = 8
            while k < n:
                m = min(step, n - k)
                parts.append((k, m, self.load(X.add(64, s, k), m)))
                k += m
            w = self.watch
            self.watch = None
            for k, m, v in parts:
                self.store(X.add(64, d, k), m, v)
            self.watch = w
            return d
        # bulk copy through a snapshot
        pages, slog = dict(self.pages), list(self.slog)
        self.own = set()
        delta = X.sub(64, s, d)
        if X.tz_(delta, 64) < 3 if isinstance(delta, E) else delta & 7:
            raise Unsupported("memcpy: misaligned bulk copy")
        if isinstance(d, int) and isinstance(s, int) and isinstance(n, int) and not self._slogged(s & ~7, s + n) and not self._slogged(d & ~7, d + n) and not d & 7 and not n & 7:
            # copy page-wise, sparse
            self.discard_words(d, d + n)
            for pg in range(s >> 12, (s + n + 4095) >> 12):
                p = pages.get(pg)
                if p:
                    for k, v in p.items():
                        a = (pg << 12) + 8 * k
                        if s <= a < s + n:
                            self.wrbase(a - s + d, v)
            return d
        wa = d
        if isinstance(d, int) and d & 7 or isinstance(d, E) and d.kz & 7 != 7:
            raise Unsupported("memcpy: unaligned destination")
        full = X.and_(64, n, ~7 & M64) if isinstance(n, E) else n & ~7
        tail = X.extract(n, 2, 0)
        M = self

        def rd(MM, a):
            return M.rdword(X.add(64, a, delta), slog, pages)
        tv = None
        if isinstance(tail, E):
            tail = self.choose(tail)
        if tail:
            tv = self.rdword(self._aligned(X.add(64, s, full)))
        self.slog.append(Rng(wa, X.add(64, wa, full), rd))
        if tail:
            self.put_sym(self._aligned(X.add(64, wa, full)) if isinstance(full, E) or isinstance(wa, E) else wa + full, 0, tail, X.trunc(8 * tail, tv))
        return d

    def discard_words(self, a, b):
        for pg in range(a >> 12, (b + 4095) >> 12):
            p = self.pages.get(pg)
            if not p:
                continue
            base = pg << 12
            if a <= base and base + 4096 <= b:
                self.pages[pg] = {}
                self.own.add(pg)
            else:
                self.pages[pg] = {k: v for k, v in p.items() if not a <= base + 8 * k < b}
                self.own.add(pg)

    # ------------------------------------------------------------------ helpers used by generated code
    def alloca(self, size, cnt, al):
        n = size * cnt
        self.sp = (self.sp - n) & ~(max(al, 16) - 1)
        a = self.sp
        for wa in range(a & ~7, (a + n + 7) & ~7, 8):
            p = self.pages.get(wa >> 12)
            if p is not None and (wa & 4095) >> 3 in p:
                if wa >> 12 not in self.own:
                    p = self.pages[wa >> 12] = dict(p)
                    self.own.add(wa >> 12)
                del p[(wa & 4095) >> 3]
        return a

    def tlsaddr(self, off):
        return TLS_BASE + self.tid * 0x10000 + off

    def insval(self, agg, v, ix):
        if not isinstance(agg, tuple):
            raise Unsupported("insertvalue into scalar")
        l = list(agg)
        if len(ix) == 1:
            l[ix[0]] = v
        else:
            l[ix[0]] = self.insval(l[ix[0]], v, ix[1:])
        return tuple(l)

    def ovf(self, kind, w, a, b):
        if kind == "uadd":
            r = X.add(w, a, b)
            return r, X.ult(w, r, a)
        if kind == "usub":
            return X.sub(w, a, b), X.ult(w, a, b)
        if kind == "umul":
            if isinstance(a, int) and isinstance(b, E):
                a, b = b, a
            if isinstance(a, E) and isinstance(b, int):
                if b == 0:
                    return 0, 0
                return X.mul(w, a, b), X.ult(w, MASK[w] // b, a)
            if isinstance(a, int):
                return (a * b) & MASK[w], int(a * b > MASK[w])
            p = X.mul(2 * w, X.zext(2 * w, a), X.zext(2 * w, b))
            return X.extract(p, w - 1, 0), X.ne(w, X.extract(p, 2 * w - 1, w), 0)
        if kind == "sadd":
            r = X.add(w, a, b)
            ext = X.add(w + 1, X.sext(w + 1, a, w), X.sext(w + 1, b, w))
            return r, X.ne(1, X.extract(ext, w, w), X.extract(ext, w - 1, w - 1))
        if kind == "ssub":
            r = X.sub(w, a, b)
            ext = X.sub(w + 1, X.sext(w + 1, a, w), X.sext(w + 1, b, w))
            return r, X.ne(1, X.extract(ext, w, w), X.extract(ext, w - 1, w - 1))
        raise Unsupported("overflow " + kind)

    def sat(self, kind, w, a, b):
        if kind == "usub":
            return X.ite(w, X.ult(w, a, b), 0, X.sub(w, a, b))
        if kind == "uadd":
            r = X.add(w, a, b)
            return X.ite(w, X.ult(w, r, a), MASK[w], r)
        raise Unsupported("sat " + kind)

    def cmpxchg(self, p, n, c, v):
        old = self.load(p, n)
        if self.cond(X.eq(8 * n, old, c)):
            self.store(p, n, v)
            return old, 1
        return old, 0

    def frange(self, name, hi):
        """fresh variable in [0, hi]"""
        k = self.nfresh.get(name, 0)
        self.nfresh[name] = k + 1
        w = max(hi.bit_length(), 1)
        v = X.var("%s.%d:%d" % (name, k, w), w, hi=hi)
        self.add_pc(X.bound(v))
        return v

    def define(self, name, e, w, hi):
        """fresh variable equal to e; hi is known to bound e"""
        v = self.frange(name, hi)
        self.add_pc(X.eq(w, X.zext(w, v) if v.w < w else v, e))
        if len(self.trace) >= len(self.prefix) or v not in self.model:
            self.model[v] = X.ev(e, self.model)
        return X.zext(w, v) if v.w < w else v

    def cttz(self, w, x, poison):
        """count of trailing zeros; the index of a free slot becomes a variable of its own when the argument cannot be zero"""
        if not isinstance(x, E):
            return X.cttz(w, x)
        e = X.cttz(w, x)
        if not poison or not isinstance(e, E):
            return e
        k = self.defs.get(e)
        if k is not None:
            return k
        hi = None
        n = self.last_n
        if n and 1 < n <= w and self.must(X.ult(w, e, n)):
            hi = n - 1
        elif self.must(X.ne(w, x, 0)):
            hi = w - 1
        if hi is None:
            return e
        r = self.define("ix", e, w, hi)
        self.defs[e] = r
        return r

    last_n = 0
    enum_draws = 0
    defs = {}

    def divcheck(self, b, w):
        if self.cond(X.eq(w, b, 0)):
            raise Segv(0, "division by zero")

    def unsup(self, s):
        raise Unsupported(s)

    def unreachable(self, s):
        raise Segv(0, "unreachable code in " + s)

    def trap(self):
        raise Segv(0, "trap")

    def step_limit(self, s):
        raise Hang("loop limit in " + s)

    def typeid(self, ti):
        d = self.prog.typeids
        if ti not in d:
            d[ti] = len(d) + 1
        return d[ti]

    def landingpad(self, clauses, cleanup):
        ti = self.exc.ti
        for c in clauses:
            if isinstance(c, tuple):
                continue   # filter
            if c == 0:
                return (0x7700, self.typeid(0))
            if c == ti or (c, ti) in self.ghost.get("derived", ()):
                return (0x7700, self.typeid(c))
        if not clauses and not cleanup:
            pass
        return (0x7700, 0)

    def resume(self):
        raise self.exc

    def icall(self, addr, args):
        a = self.conc(addr)
        if a is None:
            a = self.choose(addr)
        n = self.prog.fnaddr.get(a)
        if n is None:
            h = self.ghost.get("fnptr", {}).get(a)
            if h is not None:
                return h(self, *args)
            raise Segv(a, "call")
        if n.split("@")[0] in self.hooks and n not in self.prog.defs:
            return self.hook(n, args)
        return self.prog.ns[pyname(n)](self, *args)

    def hook(self, name, args):
        h = self.hooks.get(name)
        if h is None:
            raise Unsupported("external function " + name)
        return h(self, *args)

    mte = None

    def asm(self, s, args, cons=""):
        if self.mte is not None and s.strip() and s.split()[0] not in ("divl", "divq"):
            return self.mte.asm(s, args, cons)
        h = self.hooks.get("asm")
        if h is None:
            raise Unsupported("inline asm " + s)
        return h(self, s, args)

    def fn(self, name):
        return self.prog.ns[pyname(name)]

    def cstr(self, a, maxn=400):
        r = bytearray()
        for i in range(maxn):
            c = self.load(a + i, 1)
            if isinstance(c, E):
                c = self.val(c)
            if c == 0:
                break
            r.append(c)
        return r.decode("latin1")


def merge(old, v, b, n):
    """word old with bytes [b,b+n) replaced by v"""
    if old.__class__ is int and v.__class__ is int:
        m = MASK[8 * n] << (8 * b)
        return (old & ~m) | (v << (8 * b))
    r, w = v, 8 * n
    if b:
        r = X.concat(r, w, X.extract(old, 8 * b - 1, 0), 8 * b)
        w += 8 * b
    if w < 64:
        r = X.concat(X.extract(old, 63, w), 64 - w, r, w)
    return r


def load_program(bcs, hooks):
    prog = Program()
    for b in bcs:
        prog.add(b)
    prog.link(set(hooks))
    src = prog.codegen()
    ns = {k: getattr(X, k) for k in ("add", "sub", "mul", "udiv", "urem", "sdiv", "srem", "and_", "or_", "xor", "shl", "lshr", "ashr", "fshl",
                                     "eq", "ne", "ult", "ule", "ugt", "uge", "slt", "sle", "ite", "zext", "sext", "trunc", "cttz", "ctlz",
                                     "ctpop", "bswap")}
    ns["CxxThrow"] = CxxThrow
    exec(compile(src, "<ir>", "exec"), ns)
    prog.ns = ns
    return prog


def init_memory(M):
    """globals, TLS and stacks"""
    prog = M.prog
    M.segs = []

    def seg(a, b, prot, mid):
        M.segs.append((a, b, prot, 0, mid))
    seg(0x400000, max(prog.ro_end, 0x401000), 1, "rodata")
    seg(0x800000, prog.rw_end + 0x10000, 3, "data")
    for t in range(8):
        seg(TLS_BASE + t * 0x10000, TLS_BASE + t * 0x10000 + 0x10000, 3, "tls")
    seg(USER_BASE, USER_BASE + 0x100000, 3, "user")
    for t in range(8):
        top = STACK_TOP + t * 0x1000000
        seg(top - STACK_SIZE, top, 3 | UNDEF, "stack")
    M.segs.sort()
    for a, size, m, init, t, wr in prog.data:
        if init is None:
            continue
        out = []
        prog.flat(m, t, prog.const(m, init), 0, out)
        for off, n, v in out:
            put_bytes(M, a + off, n, v)
    for tid in range(8):
        for off, m, init, t in prog.tls_init:
            out = []
            prog.flat(m, t, prog.const(m, init), 0, out)
            for o, n, v in out:
                put_bytes(M, TLS_BASE + tid * 0x10000 + off + o, n, v)


def put_bytes(M, a, n, v):
    while n > 0:
        b = a & 7
        k = min(n, 8 - b)
        wa = a - b
        p = M.pages.get(wa >> 12)
        old = p.get((wa & 4095) >> 3, 0) if p else 0
        M.wrbase(wa, merge(old, v & MASK[8 * k], b, k))
        v >>= 8 * k
        a += k
        n -= k
