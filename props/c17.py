from hmsym.explore import Stop
from hmsym.runner import Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from hmsym import fam, expr as X
from hmsym.expr import E
from hmsym.machine import ENOMEM

PROP = Prop("C17", bounds=["up to 7 (quick) or 10 (thorough) steps of: take a slab, empty one of the slabs, trim, write to a live block, for slab sizes from 4 KiB to 128 KiB, with arbitrary release delays and slots",
                           "free-slab arrays of 0, 1, 2 and the default 32 positions; slab quarantine off, or with one block in each part", "refused replacement mappings at any step (kept, contents discarded)",
                           "cached limit: 64 KiB without and 128 KiB with extended size classes",
                           "lists: every sequence of 4 (quick) or 5 (thorough) steps over 3 slabs of a class (free a block, empty a slab, allocate a block or a slab's worth, trim), then fill, trim, empty and refill (no quarantine, first free slot)"],
            assumptions=["a slab is empty when all its slots were freed and left the slab quarantine", "the reference keeps every state the documented release delay can be in"])


def limit(hm):
    """documented limit on cached empty slabs per class"""
    return hm.maxslab if hm.ext else hm.maxslab * 4


class Ref:
    """slabs of one class as the documentation describes them; slabs are named by their address"""

    def __init__(self, hm, cls):
        self.slab = hm.slab_size(cls)
        self.lim = limit(hm)
        self.n = hm.fsq
        self.cached = []                      # most recently emptied last
        self.states = {((None,) * self.n, ())}   # release array, queue of released slabs

    def total(self):
        return len(self.cached) * self.slab

    def release(self, s):
        n = set()
        for ra, q in self.states:
            if not self.n:
                n.add((ra, q + (s,)))
            for i in set(ra):
                l = list(ra)
                l.remove(i)
                ra2 = tuple(sorted(l + [s], key=lambda x: (x is None, x or 0)))
                n.add((ra2, q) if i is None else (ra2, q + (i,)))
        self.states = n

    def empty(self, s, refused=False):
        """a slab became empty; True when it must be released"""
        if self.total() + self.slab > self.lim and not refused:
            self.release(s)
            return True
        self.cached.append(s)
        return False

    def released(self):
        r = set()
        for ra, q in self.states:
            r |= set(ra) | set(q)
        r.discard(None)
        return r

    def take(self, s, known):
        """a slab was put into use: the documented order is cached (any), then first released, then new"""
        if self.cached:
            if s not in self.cached:
                return "a cached empty slab was available but another one was used"
            self.cached.remove(s)
            return None
        n = set()
        for ra, q in self.states:
            if q:
                if q[0] == s:
                    n.add((ra, q[1:]))
            elif s not in known:
                n.add((ra, q))
        if not n:
            return "the slab put into use is not the next one the release delay and first-in first-out order allow"
        self.states = n
        return None


def hist(c):
    P = c.params
    hm, M = c.hm, c.M
    cls = P["cls"]
    other = c.call("h_malloc", 77)
    c.wr(other, 0x1234567, 8)
    c.call("h_malloc_trim", 0)       # the slab used while initializing
    if P.get("sym", 1):
        fresh(c, cls)
    ref = Ref(hm, cls)
    slots, slab = hm.slots[cls], hm.slab_size(cls)
    lo, hi = class_range(hm, cls)
    base = [None]
    known = set()
    live = []          # slabs in use, oldest first: (address, [blocks])
    arm = [0]

    def fault(M, name, args):
        if arm[0] and name == "mmap_fixed" and args[0] != 0:
            arm[0] += 1
            return ENOMEM
        return 0
    M.ghost["fault"] = fault
    log = c.info["ops"] = []

    def look():
        for s in ref.cached:
            if M.prot(s >> 12) & 3 != 3:
                c.prot(s)
                c.fail("a cached empty slab within the limit is not accessible")
        for s in ref.released():
            for o in range(0, slab, 4096):
                if M.prot((s + o) >> 12) & 3:
                    c.prot(s + o)
                    c.fail("a released slab is accessible")
            for pg, w in M.pages.items():
                if s >> 12 <= pg < (s + slab) >> 12:
                    for o, x in w.items():
                        c.prove(X.eq(64, x, 0), "a released slab kept its contents")
        for s, bl in live:
            for p, v in bl:
                if M.prot(p >> 12) & 3 != 3:
                    c.prot(p)
                    c.fail("a live block became inaccessible")
                if v and class_usable(hm, cls) >= 8:
                    c.prove(X.eq(64, c.rd(p, 8), v), "contents of a live block changed")
        if M.prot(other >> 12) & 3 != 3 or c.rd(other, 8) != 0x1234567:
            c.fail("a live block of another class was affected")

    k = 0
    for step in range(P["steps"]):
        ops = ["new"] + (["empty0", "empty1"] if live else []) + (["trim"] if ref.cached or not step else []) + (["part"] if slots > 1 else []) + (["refuse"] if live and P.get("refuse") else []) + \
              (["trimfail"] if ref.cached and P.get("refuse") else [])
        ops = [o for o in ops if o in P.get("menu", ops)]
        pre = P.get("pre", ())
        o = pre[step] if step < len(pre) else ops[c.pick("op", len(ops))]
        log.append(o)
        if o in ("new", "part"):
            bl = []
            s = None
            for j in range(slots if o == "new" else 1):
                p = c.call("h_malloc", hi)
                if isinstance(p, E):
                    p = M.choose(p)
                if p == 0:
                    c.fail("allocation failed although memory is available")
                if s is None:
                    if base[0] is None:
                        base[0] = [g for g in M.segs if g[0] <= p < g[1]][0][0]
                    s = base[0] + (p - base[0]) // slab * slab
                    e = ref.take(s, known) if s not in [x[0] for x in live] else "a slab in use is full but handed out a block" if not partial(live, slots) else None
                    if e:
                        c.fail(e)
                    if s not in [x[0] for x in live]:
                        known.add(s)
                        live.append((s, bl))
                    else:
                        bl = [x for x in live if x[0] == s][0][1]
                k += 1
                v = 0x51ab000000000001 + k
                if class_usable(hm, cls) >= 8:
                    z = c.rd(p, 8)
                    if hm.zof:
                        c.prove(X.eq(64, z, 0), "new block is not zero")
                    c.wr(p, v, 8)
                bl.append((p, v))
                if o == "new" and len(bl) >= slots:
                    break
        elif o in ("empty0", "empty1", "refuse"):
            s, bl = live.pop(0 if o != "empty1" else -1)
            arm[0] = 1 if o == "refuse" else 0
            for p, v in bl:
                c.call("h_free", p)
            refused = arm[0] > 1
            arm[0] = 0
            ref.empty(s, refused)
            if refused:
                if M.prot(s >> 12) & 3 != 3:
                    c.prot(s)
                    c.fail("slab whose replacement was refused is not usable")
                if True:
                    for pg, w in M.pages.items():
                        if s >> 12 <= pg < (s + slab) >> 12:
                            for of, x in w.items():
                                c.prove(X.eq(64, x, 0), "slab whose replacement was refused kept its contents")
        elif o in ("trim", "trimfail"):
            arm[0] = 1 if o == "trimfail" else 0
            r = c.call("h_malloc_trim", c.var("pad", 64))
            arm[0] = 0
            if o == "trimfail":
                c.prove(X.eq(32, r, 0), "trim reports success although the kernel refused")
            else:
                c.prove(X.eq(32, r, 1 if ref.cached else 0), "trim returned %s with %d cached empty slabs" % (r if isinstance(r, int) else "?", len(ref.cached)))
                # any order
                l, ref.cached = ref.cached, []
                if len(l) > 1:
                    st = ref.states
                    alls = set()
                    import itertools
                    for perm in itertools.permutations(l) if len(l) <= 4 else (tuple(reversed(l)), tuple(l)):
                        ref.states = st
                        for s in perm:
                            ref.release(s)
                        alls |= ref.states
                    ref.states = alls
                elif l:
                    ref.release(l[0])
        look()
    # a second trim finds nothing
    if ref.cached:
        c.prove(X.eq(32, c.call("h_malloc_trim", 0), 1), "trim found nothing although empty slabs are cached")
    c.prove(X.eq(32, c.call("h_malloc_trim", 0), 0), "trim reports a release although nothing is cached")
    for s, bl in live:
        for p, v in bl:
            c.call("h_free", p)
    c.ok_kernel()
    c.reach("end")


def partial(live, slots):
    return any(len(bl) < slots for s, bl in live)


def trims(c):
    """trim over several classes with held-back blocks: live blocks intact, held blocks still held, returns 1 exactly when a slab was released"""
    P = c.params
    hm, M = c.hm, c.M
    fresh(c)
    h = Heap(c, ("overlap",))
    log = c.info["ops"] = []
    ks = P["cls"]
    for i in range(P["steps"]):
        o = c.pick("op", len(ks) + 2)
        log.append(o)
        if o < len(ks):
            b = h.malloc(class_range(hm, ks[o])[1])
            h.mark(b)
        elif o == len(ks):
            if h.blocks:
                h.free(h.blocks[0])
        else:
            before = acc(c)
            r = c.call("h_malloc_trim", 0)
            after = acc(c)
            c.prove(X.eq(32, r, 1 if after < before else 0), "trim returned a value that does not tell whether memory was released")
            if after > before:
                c.fail("trim made memory accessible")
            for b in h.blocks:
                c.call("h_malloc_usable_size", b.p)
        h.verify_all()
    for b in h.held:
        if h.still_held(b) and b.cls:
            expect_fatal(c, "h_free", b.p, msg="second free of a block after trim was not detected")
            break
    c.ok_kernel()
    c.reach("end")


def trims_full(c):
    """every position of the quarantine in use, live blocks directly next to the held-back ones"""
    P = c.params
    hm = c.hm
    fresh(c)
    h = Heap(c, ("overlap",))
    hi = class_range(hm, P["cls"])[1]
    n = sum(quar_lengths(hm, P["cls"]))
    for _ in range(2 * n + 4):
        h.mark(h.malloc(hi, P["cls"]))
    first = c.pick("first", 2)
    out = h.blocks[first::2]
    for i in range(1 + c.pick("frees", len(out))):
        h.free(out[i])
    c.call("h_malloc_trim", 0)
    h.verify_all()
    for b in h.blocks:
        c.call("h_malloc_usable_size", b.p)
    c.ok_kernel()
    c.reach("end")


def acc(c):
    hm = c.hm
    n = 0
    for s in c.M.segs:
        if s[0] < hm.slab_end and hm.slab_start < s[1] and s[2] & 3:
            n += min(s[1], hm.slab_end) - max(s[0], hm.slab_start)
    return n


def early(c):
    """trim before initialization"""
    c.prove(X.eq(32, c.call("h_malloc_trim", c.var("pad", 64)), 0), "trim before initialization reports a release")
    p = c.call("h_malloc", 10)
    c.prove(X.ne(64, p, 0), "allocation failed")
    c.reach("end")


def purge(c):
    """mallopt: bionic's purge request is a trim; everything else is refused and changes nothing"""
    P = c.params
    hm, M = c.hm, c.M
    c.symbolic_random(False)
    ps = [c.call("h_malloc", class_range(hm, k)[1]) for k in (36, 36, 12, 12)]
    for p in ps[:2]:
        c.call("h_free", p)
    par, val = c.var("param", 32), c.var("value", 32)
    n = len(M.events)
    r = c.call("h_mallopt", par, val)
    asked = c.branch(X.eq(32, par, X.MASK[32] - 100))
    work = [e for e in M.events[n:] if e[0] in ("mmap", "munmap", "mprotect", "madvise")]
    if asked and P.get("android"):
        c.prove(X.eq(32, r, 1), "the purge request is not reported as done")
        if c.call("h_malloc_trim", 0) != 0:
            c.fail("cached empty slabs are left after the purge request")
        c.reach("purged")
    else:
        c.prove(X.eq(32, r, 0), "mallopt accepts a parameter that is not supported")
        if work:
            c.fail("mallopt with an unsupported parameter does something")
        if c.call("h_malloc_trim", 0) != 1:
            c.fail("the empty slabs are gone")
        c.reach("refused")
    for p in ps[2:]:
        c.wr(p, 8, 7)
        c.call("h_free", p)
    c.reach("end")


def tasks(tier, seed):
    T = tier == "thorough"
    B = 90 if T else 6
    r = []

    def cfg(f, ext=True, q=0, **k):
        return Cfg("default", EXTENDED_SIZE_CLASSES=ext, SLAB_QUARANTINE_RANDOM_LENGTH=q, SLAB_QUARANTINE_QUEUE_LENGTH=q, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=f,
                   name="%s,slab-quarantine-%d,free-slabs-%d%s" % ("ext" if ext else "no-ext", q, f, "".join(",%s=%s" % x for x in k.items())), **k)
    NOZ = dict(ZERO_ON_FREE=False, WRITE_AFTER_FREE_CHECK=False, SLAB_CANARY=False)
    NR = dict(SLOT_RANDOMIZE=False)
    n = 9 if T else 6
    for f in (0, 1, 2):
        C = cfg(f, **NOZ)
        r.append(Task("hist/%s/48" % C.name, C, hist, dict(cls=48, steps=n + 1, enum=8, refuse=1), budget=B, reach=["end"]))
        r.append(Task("hist/%s/43" % C.name, C, hist, dict(cls=43, steps=n + 1, enum=8, refuse=f == 2), budget=B, reach=["end"]))
    for f in (0, 2):
        C = cfg(f, **(NR if f == 0 else dict(NOZ, **NR)))
        r.append(Task("hist/%s/36" % C.name, C, hist, dict(cls=36, steps=n, enum=8, refuse=1), budget=B, reach=["end"]))
        r.append(Task("hist/%s/32" % C.name, C, hist, dict(cls=32, steps=n, enum=8, menu=["new", "empty0", "empty1", "trim"]), budget=B, reach=["end"]))
        C = cfg(f, False, **NR)
        r.append(Task("hist/%s/36" % C.name, C, hist, dict(cls=36, steps=n, enum=8), budget=B, reach=["end"]))
        r.append(Task("hist/%s/28" % C.name, C, hist, dict(cls=28, steps=n, enum=8, refuse=1, menu=["new", "empty0", "empty1", "trim", "refuse", "trimfail"]), budget=B, reach=["end"]))
    # slabs which were released and reused before
    for f, cls in ((0, 48), (0, 36), (1, 48), (0, 28)):
        C = cfg(f, cls not in (36, 28), **dict(NOZ, **NR))
        for i, pre in enumerate((["new", "empty0", "trim", "new"], ["new", "new", "new", "empty0", "empty1", "trim", "new", "new"], ["new", "new", "empty0", "trim", "new", "empty1", "trim", "new"], ["new"] * 4 + ["empty0"] * 4)):
            r.append(Task("reused-%d/%s/%d" % (i, C.name, cls), C, hist, dict(cls=cls, steps=len(pre) + (6 if T else 4), pre=pre, enum=8, menu=["new", "empty0", "empty1", "trim"]), budget=B, reach=["end"]))
    C = cfg(32, SLOT_RANDOMIZE=False, ZERO_ON_FREE=False, WRITE_AFTER_FREE_CHECK=False)
    r.append(Task("hist/%s/40" % C.name, C, hist, dict(cls=40, steps=n, enum=32), budget=B, reach=["end"]))
    C = cfg(2)
    r.append(Task("hist/%s/36" % C.name, C, hist, dict(cls=36, steps=n, enum=8), budget=B, reach=["end"]))
    for C in (D, cfg(2, True, 1), cfg(1, False, 1)):
        r.append(Task("trims/" + C.name, C, trims, dict(cls=[36, 33, 7] if "no-ext" in C.name else [48, 40, 36], steps=n, enum=8), budget=B, reach=["end"]))
    # neighbouring slabs without guards between them
    C = cfg(1, True, 1, GUARD_SLABS_INTERVAL=64, WRITE_AFTER_FREE_CHECK=False)
    for k in (37, 40, 44):
        r.append(Task("trims-full/%s/%d" % (C.name, k), C, trims_full, dict(cls=k, enum=1 if not T else 64), budget=B, reach=["end"]))
    for C in (cfg(1, True, 1, GUARD_SLABS_INTERVAL=4), cfg(2, True, 2, GUARD_SLABS_INTERVAL=3, WRITE_AFTER_FREE_CHECK=False)):
        r.append(Task("trims/" + C.name, C, trims, dict(cls=[40, 37] if T else [40], steps=n + 1, enum=8), budget=B, reach=["end"]))
    r.append(Task("mallopt/android", android("android,no-ext,no-slab-quarantine", EXTENDED_SIZE_CLASSES=False, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0), purge, dict(android=1), budget=B, reach=["end", "purged", "refused"]))
    r.append(Task("mallopt", cfg(2, False), purge, {}, budget=B, reach=["end", "refused"]))
    r.append(Task("before-init", D, early, {}, boot=False, budget=B, reach=["end"]))
    r += fam.lists_tasks(Task, Cfg, B, steps=5 if T else 4)
    r += fam.lists_tasks(Task, Cfg, B, steps=4, cls=25)
    return r
