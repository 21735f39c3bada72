import re
from hmsym.explore import Stop
from hmsym.runner import Cfg, Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from props.c23 import draws
from hmsym import env, fam, expr as X
from hmsym.expr import E
from hmsym.machine import USER_BASE, ENOMEM
from hmsym.scen import up

PROP = Prop("C24", bounds=["all sequences of up to 3 (quick) or 5 (thorough) operations (small of chosen classes incl. zero-size and single-slot ones, large, over-aligned, resizes in every direction, free, calloc, trim, another thread), arbitrary random draws",
                           "sizes symbolic inside their class; in the page-granular build symbolic over a range of several pages",
                           "each kernel call of the last operation refused in turn, in every state reached by the sequences before it", "statistics off: everything reported is 0"],
            assumptions=["counted when the program frees: held-back blocks are deallocated blocks", "a zero-size block counts as its 16-byte slot", "mapped bytes of a class are the accessible bytes of its region",
                         "values are read between calls; reading while other threads run is C19"])
MI = USER_BASE + 0x1000
F = dict(arena=0, ordblks=1, smblks=2, hblks=3, hblkhd=4, usmblks=5, fsmblks=6, uordblks=7, fordblks=8, keepcost=9)


class Ref:
    def __init__(self, hm, booted):
        self.n = {}
        self.live = {}       # address -> (arena, class) or ("L", size)
        self.zslabs = set()
        if booted:
            self.n[(0, doc_class(hm, 16))] = [1, 1]
        self.hm = hm

    def add(self, p, cls=None, size=None):
        if cls is None:
            self.live[p] = ("L", size)
            return
        ar, k = self.where(p)
        self.live[p] = (ar, k)
        self.n.setdefault((ar, k), [0, 0])[0] += 1
        if k == 0:
            self.zslabs.add((ar, p & ~4095))

    def where(self, p):
        hm = self.hm
        r = (p - hm.slab_start) // hm.real
        return r // hm.nclass, r % hm.nclass

    def drop(self, p):
        w = self.live.pop(p)
        if w[0] != "L":
            self.n[w][1] += 1
        return w

    def allocated(self):
        r = {}
        for w in self.live.values():
            if w[0] != "L":
                r[w] = r.get(w, 0) + self.hm.size_of(w[1])
        return r

    def large(self):
        t = 0
        for w in self.live.values():
            if w[0] == "L":
                t = X.add(64, t, w[1]) if isinstance(w[1], E) or isinstance(t, E) else t + w[1]
        return t


def mapped(c):
    """accessible bytes of each class region"""
    hm, M = c.hm, c.M
    r = {}
    for s in M.segs:
        if s[2] & 3 and s[0] < hm.slab_end and s[1] > hm.slab_start:
            a = s[0]
            while a < s[1]:
                k = (a - hm.slab_start) // hm.real
                e = min(s[1], hm.slab_start + (k + 1) * hm.real)
                w = (k // hm.nclass, k % hm.nclass)
                r[w] = r.get(w, 0) + e - a
                a = e
    return r


def special(c, name, *args, ret=0):
    M = c.M
    M.events.append(("call", "@" + name, args))
    if name == "malloc_info":
        r = M.fn("h_malloc_info")(M, args[0], USER_BASE)
    else:
        r = M.fn("h_" + name)(M, args[0])
    M.events.append(("ret", r if ret else 0, 32 if ret else 0))
    return r


def info_text(c, opt=0):
    """(output of malloc_info with symbolic numbers as {En}, symbolic values)"""
    M = c.M
    n = len(M.events)
    r = special(c, "malloc_info", opt, ret=1)
    vals = []
    out = []
    for e in M.events[n:]:
        if e[0] == "fputs":
            out.append(e[1])
        elif e[0] == "fprintf":
            it = iter(e[2])

            def one(m, it=it):
                v = next(it)
                if isinstance(v, E):
                    vals.append(v)
                    return "{E%d}" % (len(vals) - 1)
                w = 64 if re.search("z|l|j", m.group(0)) else 32
                v &= X.MASK[w]
                if m.group(0)[-1] in "di" and v >> (w - 1):
                    v -= 1 << w
                return str(v)
            out.append(re.sub(r"%[-+ #0]*\d*(?:hh|h|ll|l|z|j|t)?[udixX]", one, e[1].decode("latin1") if isinstance(e[1], bytes) else e[1]))
    return r, "".join(x.decode("latin1") if isinstance(x, bytes) else x for x in out), vals


def number(s, vals):
    m = re.match(r"\{E(\d+)\}$", s)
    return vals[int(m.group(1))] if m else int(s)


def parse(c, txt, vals):
    if not txt.startswith("<malloc version=") or not txt.endswith("</malloc>"):
        c.fail("malloc_info does not write a complete document")
    bins = {}
    large = None
    heaps = []
    for m in re.finditer(r'<heap nr="([^"]*)">(.*?)</heap>', txt):
        h = number(m.group(1), vals)
        heaps.append(h)
        for b in re.finditer(r'<bin nr="([^"]*)" size="([^"]*)">(.*?)</bin>', m.group(2)):
            d = {t: number(v, vals) for t, v in re.findall(r"<(\w+)>([^<]*)</\1>", b.group(3))}
            d["size"] = number(b.group(2), vals)
            bins[(h, number(b.group(1), vals))] = d
        l = re.search(r"<allocated_large>([^<]*)</allocated_large>", m.group(2))
        if l:
            large = number(l.group(1), vals)
    return bins, large, heaps


def compare(c, ref, what=""):
    hm, M = c.hm, c.M
    mp = mapped(c)
    al = ref.allocated()
    lg = ref.large()
    if "h_malloc_info" not in hm.prog.defs:
        return compare_android(c, ref, mp, al, lg, what)
    # class 0 has no accessible memory: its slabs are counted while they are in use or cached
    r, txt, vals = info_text(c)
    c.prove(X.eq(32, r, 0), "malloc_info failed")
    bins, large, heaps = parse(c, txt, vals)
    if heaps != list(range(hm.narena + 1)) or large is None:
        c.fail("malloc_info does not list every arena and the large allocations")
    c.prove(X.eq(64, large, lg), "bytes of large allocations are wrong " + what)
    tot_slab = 0
    keys = set(bins) | set(ref.n) | set(mp)
    for k in sorted(keys):
        d = bins.get(k, dict(nmalloc=0, ndalloc=0, slab_allocated=0, allocated=0, size=None))
        nm, nd = ref.n.get(k, (0, 0))
        w = "of class %d in arena %d %s" % (k[1], k[0], what)
        if k[1] >= hm.nclass or k[0] >= hm.narena:
            c.fail("malloc_info lists a class that does not exist")
        if d["size"] is not None and d["size"] != hm.sizes[k[1]]:
            c.fail("malloc_info names the wrong size for class %d" % k[1])
        c.prove(X.eq(64, d["nmalloc"], nm), "number of allocations %s is wrong" % w)
        c.prove(X.eq(64, d["ndalloc"], nd), "number of deallocations %s is wrong" % w)
        c.prove(X.eq(64, d["allocated"], al.get(k, 0)), "allocated bytes %s are wrong" % w)
        sl = d["slab_allocated"]
        if k[1] == 0:
            seen = len([z for z in ref.zslabs if z[0] == k[0]])
            lim = hm.maxslab if hm.ext else 4 * hm.maxslab
            if seen * 4096 <= lim:
                c.prove(X.eq(64, sl, seen * 4096), "mapped bytes %s are wrong" % w)
            else:
                c.prove(X.ule(64, sl, seen * 4096), "mapped bytes %s are wrong" % w)
        else:
            c.prove(X.eq(64, sl, mp.get(k, 0)), "mapped bytes %s are wrong" % w)
        tot_slab = X.add(64, tot_slab, sl)
    special(c, "mallinfo2", MI)
    f = {n: c.rd(MI + 8 * i, 8) for n, i in F.items()}
    ta = sum(al.values())
    hb = X.add(64, tot_slab, lg)
    c.prove(X.eq(64, f["hblkhd"], hb), "mallinfo: mapped bytes are wrong " + what)
    c.prove(X.eq(64, f["uordblks"], X.add(64, ta, lg)), "mallinfo: allocated bytes are wrong " + what)
    c.prove(X.eq(64, f["fordblks"], X.sub(64, hb, X.add(64, ta, lg))), "mallinfo: free bytes are wrong " + what)
    c.prove(X.eq(64, f["usmblks"], hb), "mallinfo: maximum mapped bytes are wrong " + what)
    c.prove(X.ule(64, f["uordblks"], f["hblkhd"]), "mallinfo: more bytes allocated than mapped " + what)
    for n in ("arena", "ordblks", "smblks", "hblks", "fsmblks", "keepcost"):
        c.prove(X.eq(64, f[n], 0), "mallinfo: %s is not zero" % n)


def fields(c):
    return {n: c.rd(MI + 8 * i, 8) for n, i in F.items()}


def per(c, fn, *args):
    M = c.M
    M.events.append(("call", "@" + fn, (MI,) + args))
    M.fn("h_" + fn)(M, MI, *args)
    M.events.append(("ret", 0, 0))
    return fields(c)


def compare_android(c, ref, mp, al, lg, what=""):
    """the interfaces bionic builds its malloc_info from"""
    hm = c.hm
    if c.call("h_mallinfo_narenas") != hm.narena + 1 or c.call("h_mallinfo_nbins") != hm.nclass:
        c.fail("wrong number of arenas or bins")
    only = lambda f, names, w: [c.prove(X.eq(64, v, 0), "%s: %s is not zero" % (w, n)) for n, v in f.items() if n not in names]
    tot = 0
    for a in range(hm.narena):
        slab = tall = 0
        for k in range(hm.nclass):
            nm, nd = ref.n.get((a, k), (0, 0))
            w = "of class %d in arena %d %s" % (k, a, what)
            f = per(c, "mallinfo_bin_info", a, k)
            c.prove(X.eq(64, f["ordblks"], al.get((a, k), 0)), "allocated bytes %s are wrong" % w)
            c.prove(X.eq(64, f["uordblks"], nm), "number of allocations %s is wrong" % w)
            c.prove(X.eq(64, f["fordblks"], nd), "number of deallocations %s is wrong" % w)
            only(f, ("ordblks", "uordblks", "fordblks"), w)
            if k:
                slab = X.add(64, slab, mp.get((a, k), 0))
            tall += al.get((a, k), 0)
        slab = X.add(64, slab, 4096 * len([z for z in ref.zslabs if z[0] == a]))
        f = per(c, "mallinfo_arena_info", a)
        w = "of arena %d %s" % (a, what)
        c.prove(X.eq(64, f["hblkhd"], slab), "mapped bytes %s are wrong" % w)
        c.prove(X.eq(64, f["fsmblks"], tall), "allocated bytes %s are wrong" % w)
        only(f, ("hblkhd", "fsmblks"), w)
        tot = X.add(64, tot, slab)
    f = per(c, "mallinfo_arena_info", hm.narena)
    c.prove(X.eq(64, f["hblkhd"], lg), "mapped bytes of large allocations are wrong " + what)
    c.prove(X.eq(64, f["uordblks"], lg), "bytes of large allocations are wrong " + what)
    only(f, ("hblkhd", "uordblks"), "large allocations " + what)
    a, b = c.var("arena", 64), c.var("bin", 64)
    c.assume(X.or_(1, X.uge(64, a, hm.narena), X.uge(64, b, hm.nclass)))
    only(per(c, "mallinfo_bin_info", a, b), (), "a bin that does not exist")
    c.assume(X.ult(64, hm.narena, a))
    only(per(c, "mallinfo_arena_info", a), (), "an arena that does not exist")
    special(c, "mallinfo", MI)
    f = fields(c)
    ta = sum(al.values())
    c.prove(X.eq(64, f["hblkhd"], X.add(64, tot, lg)), "mallinfo: mapped bytes are wrong " + what)
    c.prove(X.eq(64, f["usmblks"], X.add(64, tot, lg)), "mallinfo: maximum mapped bytes are wrong " + what)
    c.prove(X.eq(64, f["uordblks"], X.add(64, ta, lg)), "mallinfo: allocated bytes are wrong " + what)
    c.prove(X.eq(64, f["fordblks"], X.sub(64, X.add(64, tot, lg), X.add(64, ta, lg))), "mallinfo: free bytes are wrong " + what)
    only(f, ("hblkhd", "usmblks", "uordblks", "fordblks"), "mallinfo")
    c.reach("android")


def edge_android(c):
    """statistics before initialization, and in a build without statistics"""
    hm = c.hm
    z = lambda f, w: [c.prove(X.eq(64, v, 0), "%s is not zero: %s" % (n, w)) for n, v in f.items()]
    for i in range(2):
        a, b = c.var("arena%d" % i, 64), c.var("bin%d" % i, 64)
        z(per(c, "mallinfo_bin_info", a, b), "bin")
        z(per(c, "mallinfo_arena_info", a), "arena")
        special(c, "mallinfo", MI)
        z(fields(c), "mallinfo")
        if c.call("h_mallinfo_narenas") != hm.narena + 1 or c.call("h_mallinfo_nbins") != hm.nclass:
            c.fail("wrong number of arenas or bins")
        if hm.stats:
            break
        c.call("h_malloc", 300000)
        c.call("h_malloc", 100)
    c.reach("end")


def conc(c, p):
    return c.M.choose(p) if isinstance(p, E) else p


def large_size(c, hm, s, cls):
    """size of the large block made for a request (documented rounding)"""
    if isinstance(s, E):
        s = large_range(hm, cls[1], large_classes(hm, 1 << 36))[1]
    return large_usable(hm, s)


def op(c, ref, o, log, fail=False):
    hm, M = c.hm, c.M
    k = o[0]
    live = list(ref.live)

    def got(p, s, cls):
        if not fail and p == 0:
            c.fail("allocation failed although memory is available")
        if p == 0:
            return
        if isinstance(cls, tuple) or cls == "large":
            ref.add(p, None, large_size(c, hm, s, cls))
        else:
            ref.add(p, cls)
    if k == "m":
        s = fam.sym_req(c, o[1])
        got(conc(c, c.call("h_malloc", s)), s, o[1])
    elif k == "c":
        s = fam.sym_req(c, o[1])
        got(conc(c, c.call("h_calloc", s, 1)), s, o[1])
    elif k == "a":
        got(conc(c, c.call("h_memalign", o[1], o[2])), o[2], fam.aligned_class(hm, o[1], o[2]))
    elif k in ("f0", "f1"):
        p = live[0 if k == "f0" else -1]
        c.call("h_free", p)
        ref.drop(p)
    elif k == "fs":
        p = live[-1]
        w = ref.live[p]
        s = w[1] if w[0] == "L" else class_range(hm, w[1])[1]
        c.call("h_free_sized", p, s)
        ref.drop(p)
    elif k == "r":
        p = live[-1]
        s = fam.sym_req(c, o[1])
        q = conc(c, c.call("h_realloc", p, s))
        if q == 0:
            if not fail:
                c.fail("realloc failed although memory is available")
            return
        w = ref.live[p]
        if w[0] != "L" and not isinstance(o[1], tuple) and w[1] == o[1]:
            if q != p:
                ref.drop(p)
                ref.add(q, o[1])
            return
        ref.drop(p)
        got(q, s, o[1])
    elif k == "r0":
        q = conc(c, c.call("h_realloc", 0, 77))
        got(q, 77, doc_class(hm, 77))
    elif k == "t":
        c.call("h_malloc_trim", 0)
    elif k == "th":
        c.thread((M.tid + 1) % 3)
    elif k == "mm":
        s = class_range(hm, o[1])[1]
        for i in range(o[2]):
            got(conc(c, c.call("h_malloc", s)), s, o[1])
    elif k == "mk":
        cls = c.pick("class", hm.nclass + 3)
        cls = cls if cls < hm.nclass else ("L", 5 * (cls - hm.nclass))
        log.append(str(cls))
        op(c, ref, ("mc"[c.pick("zeroed", 2)], cls), log, fail)
    elif k == "ak":
        al = 1 << (4 + c.pick("alignment", 20))
        sz = [100, 5000, 200000][c.pick("size", 3)]
        log.append("aligned %d, %d" % (al, sz))
        op(c, ref, ("a", al, sz), log, fail)
    elif k == "ml":
        for i in range(o[1]):
            got(conc(c, c.call("h_malloc", 200000)), 200000, "large")
    elif k == "grow":       # the region table is about to grow
        for i in range(93 + c.pick("table", 6)):
            got(conc(c, c.call("h_malloc", 200000)), 200000, "large")
    elif k == "fa":
        for p in live:
            c.call("h_free", p)
            ref.drop(p)


def ok(ref, o):
    if o[0] in ("f0", "f1", "r", "fs", "fa"):
        return len(ref.live) > (1 if o[0] == "f1" else 0)
    return True


def hist(c):
    P = c.params
    hm, M = c.hm, c.M
    if P.get("word"):
        # every draw (guard sizes, slots) at one extreme
        p = draws(c, P["word"])
        hm.find_layout()
        c.call("h_free", p)
    elif P.get("sym", 1):
        fresh(c, *P["classes"], region=True)
    ref = Ref(hm, not P.get("word"))
    log = c.info["ops"] = []
    for o in P.get("pre", ()):
        op(c, ref, o, log)
    n = P["steps"]
    for i in range(n):
        ops = [o for o in P["menu"] if ok(ref, o)]
        o = ops[c.pick("op", len(ops))]
        log.append(str(o))
        fl = P.get("fail") and i == n - 1
        if fl:
            at = c.pick("refuse", P["fail"])
            cnt = [0]
            hit = []

            def fault(M, name, args):
                cnt[0] += 1
                if cnt[0] - 1 == at:
                    hit.append(name)
                    return ENOMEM
                return 0
            M.ghost["fault"] = fault
            try:
                op(c, ref, o, log, fail=True)
            finally:
                M.ghost["fault"] = None
            if not hit:
                c.reach("not-refused")
                raise Stop
            log.append("call %d (%s) refused" % (at, hit[0]))
            c.reach("refused:" + hit[0])
            compare(c, ref, "after a refused system call")
        else:
            op(c, ref, o, log)
            if i == n - 1 or P.get("each"):
                compare(c, ref)
    if P.get("drain", 1):
        for p in list(ref.live):
            c.call("h_free", p)
            ref.drop(p)
        compare(c, ref, "after everything was freed")
    c.ok_kernel()
    c.reach("end")


def edge(c):
    """before initialization, bad options, statistics off, the int variant"""
    hm, M = c.hm, c.M
    c.symbolic_random(False)
    M_ = [0] * 10
    special(c, "mallinfo2", MI)
    if any(c.rd(MI + 8 * i, 8) != 0 for i in range(10)):
        c.fail("mallinfo before the first allocation is not zero")
    r, txt, vals = info_text(c)
    if r != 0 or "<bin" in txt or not txt.startswith("<malloc") or not txt.endswith("</malloc>"):
        c.fail("malloc_info before the first allocation")
    c.call("h_malloc", 100)
    c.call("h_malloc", 300000)
    opt = c.var("options", 32)
    c.assume(X.not_(X.eq(32, opt, 0)))
    c.set_errno(0)
    n = len(M.events)
    r = special(c, "malloc_info", opt, ret=1)
    c.prove(X.eq(32, r, X.MASK[32]), "malloc_info accepts unknown options")
    c.prove(X.eq(32, c.errno(), 22), "malloc_info with unknown options does not set EINVAL")
    if any(e[0] in ("fputs", "fprintf") for e in M.events[n:]):
        c.fail("malloc_info with unknown options writes output")
    special(c, "mallinfo", MI)
    for i in range(5):
        if c.rd(MI + 8 * i, 8) != 0:
            c.fail("mallinfo with int fields is not zero")
    if not hm.stats:
        special(c, "mallinfo2", MI)
        if any(c.rd(MI + 8 * i, 8) != 0 for i in range(10)):
            c.fail("mallinfo without statistics is not zero")
        r, txt, vals = info_text(c)
        if r != 0 or "<bin" in txt:
            c.fail("malloc_info without statistics lists classes")
    else:
        special(c, "mallinfo2", MI)
        if c.rd(MI + 8 * 4, 8) == 0:
            c.fail("mallinfo is zero although memory is allocated")
    c.reach("end")


def tasks(tier, seed):
    T = tier == "thorough"
    B = 240 if T else 40
    r = []
    S0 = Cfg("default", STATS=True, SLOT_RANDOMIZE=False, name="default,stats,no-slot-random")
    SN = Cfg("default", STATS=True, SLOT_RANDOMIZE=False, EXTENDED_SIZE_CLASSES=False, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0,
             REGION_QUARANTINE_RANDOM_LENGTH=1, REGION_QUARANTINE_QUEUE_LENGTH=1, GUARD_SIZE_DIVISOR=100000, name="stats,no-ext,no-slab-quarantine,region-quarantine-1-1")
    SP = Cfg("light", STATS=True, EXTENDED_SIZE_CLASSES=False, LARGE_SIZE_CLASSES=False, GUARD_SIZE_DIVISOR=100000, REGION_QUARANTINE_RANDOM_LENGTH=1, REGION_QUARANTINE_QUEUE_LENGTH=1, name="light,stats,page-large")
    SQ = Cfg("default", STATS=True, SLOT_RANDOMIZE=False, SLAB_QUARANTINE_RANDOM_LENGTH=1, SLAB_QUARANTINE_QUEUE_LENGTH=1, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=2, ZERO_ON_FREE=False, WRITE_AFTER_FREE_CHECK=False,
             REGION_QUARANTINE_RANDOM_LENGTH=1, REGION_QUARANTINE_QUEUE_LENGTH=1, GUARD_SIZE_DIVISOR=100000, name="stats,quarantine-1-1")
    r.append(Task("edge/stats", S0, edge, {}, boot=False, budget=B, reach=["end"]))
    r.append(Task("edge/off", D, edge, {}, boot=False, budget=B, reach=["end"]))
    n = 4 if T else 3
    last = SN and 36
    A = dict(STATS=True, SLOT_RANDOMIZE=False, EXTENDED_SIZE_CLASSES=False, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0,
             REGION_QUARANTINE_RANDOM_LENGTH=1, REGION_QUARANTINE_QUEUE_LENGTH=1, GUARD_SIZE_DIVISOR=100000)
    SA = android("android,stats,no-ext,no-slab-quarantine,region-quarantine-1-1", **A)
    SA2 = android("android,stats,2-arenas", N_ARENA=2, **A)
    r.append(Task("android/edge-stats", SA, edge_android, {}, boot=False, budget=B, reach=["end"]))
    r.append(Task("android/edge-off", android("android"), edge_android, {}, boot=False, budget=B, reach=["end"]))
    r.append(Task("android/hist", SA, hist, dict(steps=2, classes=[5], menu=[("m", 5), ("m", 0), ("m", ("L", 0)), ("f0",), ("th",), ("r", 12), ("t",)], drain=0), budget=B, reach=["end", "android"]))
    r.append(Task("android/arenas", SA2, hist, dict(steps=1, classes=[], sym=0, pre=[("m", 5), ("m", ("L", 2)), ("th",), ("m", 5), ("m", 36), ("m", 0)], menu=[("m", 5), ("f0",), ("f1",), ("th",)]), budget=B, reach=["end", "android"]))
    r.append(Task("small/no-quarantine", SN, hist, dict(steps=n, classes=[5, last], menu=[("m", 5), ("m", 0), ("m", last), ("f0",), ("f1",), ("t",), ("r", 5)]), budget=B, reach=["end"]))
    r.append(Task("small/quarantine", SQ, hist, dict(steps=n, classes=[5, 48], menu=[("m", 48), ("m", 5), ("m", 0), ("f0",), ("f1",), ("t",), ("fs",)]), budget=B, reach=["end"]))
    r.append(Task("large", SN, hist, dict(steps=n, classes=[], menu=[("m", ("L", 0)), ("m", ("L", 3)), ("f0",), ("r", ("L", 1)), ("r", ("L", 4)), ("a", 65536, 70000), ("c", ("L", 0))]), budget=B, reach=["end"]))
    r.append(Task("mixed", SN, hist, dict(steps=n, classes=[5, 12], menu=[("m", 5), ("r", ("L", 0)), ("r", 12), ("r", 0), ("c", 12), ("a", 4096, 3000), ("a", 64, 100), ("f0",), ("th",), ("r0",)]), budget=B, reach=["end"]))
    for nm, w in (("largest", X.MASK[64]), ("smallest", 1)):
        r.append(Task("large-guards/" + nm, S0, hist, dict(steps=3 if T else 2, classes=[], word=w, each=1, menu=[("m", ("L", 6)), ("m", ("L", 30)), ("r", ("L", 0)), ("r", ("L", 20)), ("r", ("L", 34)), ("r", 5), ("f0",), ("a", 65536, 700000)]), boot=False, budget=B, reach=["end"]))
    r.append(Task("every-class", S0, hist, dict(steps=1, classes=[], sym=0, menu=[("mk",)]), budget=B, reach=["end"]))
    r.append(Task("every-alignment", SN, hist, dict(steps=1, classes=[], sym=0, menu=[("ak",)]), budget=B, reach=["end"]))
    # many slabs: cached, released and reused
    r.append(Task("slabs", SN, hist, dict(steps=n + 1, classes=[36], sym=0, menu=[("mm", 36, 5), ("fa",), ("t",), ("m", 36), ("f0",)], each=1), budget=B, reach=["end"]))
    r.append(Task("slabs/quarantine", SQ, hist, dict(steps=n, classes=[48], sym=0, menu=[("mm", 48, 4), ("fa",), ("t",), ("m", 48), ("f0",)], each=1), budget=B, reach=["end"]))
    r.append(Task("zero-many", SN, hist, dict(steps=2 if T else 1, classes=[], sym=0, menu=[("mm", 0, 600), ("fa",)], each=1), budget=B, reach=["end"]))
    # remapping moves
    r.append(Task("huge", SN, hist, dict(steps=2, classes=[], sym=0, pre=[("m", ("L", 46))], menu=[("r", ("L", 49)), ("r", ("L", 42)), ("r", 5), ("f0",), ("m", ("L", 46))]), budget=B, reach=["end"]))
    r.append(Task("huge/refused", SN, hist, dict(steps=1, classes=[], sym=0, fail=7, pre=[("m", ("L", 46))], menu=[("r", ("L", 49)), ("r", ("L", 42)), ("r", 5), ("f0",)]), budget=B, reach=["end", "refused:mremap"]))
    # page-granular sizes, symbolic
    r.append(Task("page-large", SP, pages, dict(), budget=B, reach=["end"]))
    # refused kernel calls
    f = 6
    tags = ["end"]
    r.append(Task("refused/small", SN, hist, dict(steps=2, classes=[5], fail=4, menu=[("m", 5), ("m", 36), ("r", 12), ("f0",), ("t",)]), budget=B, reach=tags))
    r.append(Task("refused/slabs", SN, hist, dict(steps=1, classes=[36], fail=7, sym=0, pre=[("mm", 36, 6)], menu=[("fa",)]), budget=B, reach=tags))
    r.append(Task("refused/slabs-trim", SN, hist, dict(steps=1, classes=[36], fail=5, sym=0, pre=[("mm", 36, 6), ("fa",)], menu=[("t",), ("m", 36), ("mm", 36, 6)]), budget=B, reach=tags))
    r.append(Task("refused/large", SN, hist, dict(steps=2, classes=[], fail=f, menu=[("m", ("L", 0)), ("r", ("L", 3)), ("r", 5), ("f0",), ("a", 65536, 70000), ("m", 5)]), budget=B, reach=tags))
    r.append(Task("refused/shrink", SN, hist, dict(steps=1, classes=[], fail=f, pre=[("m", ("L", 3))], menu=[("r", ("L", 0)), ("r", ("L", 4)), ("f0",)]), budget=B, reach=tags))
    r.append(Task("refused/table", SN, hist, dict(steps=1, classes=[], sym=0, fail=f, drain=0, pre=[("grow",)], menu=[("ml", 1), ("a", 65536, 70000), ("r", 5)] + ([("r", ("L", 9))] if T else [])), budget=B, reach=tags))
    if T:
        r.append(Task("random-slots", STATS, hist, dict(steps=2, classes=[20], menu=[("m", 20), ("f0",), ("t",)]), budget=B, reach=["end"]))
        r.append(Task("small-deep", SN, hist, dict(steps=6, classes=[36], sym=0, menu=[("m", 36), ("f0",), ("f1",), ("t",), ("mm", 36, 4)], each=1), budget=B, reach=["end"]))
        r.append(Task("refused/deep", SN, hist, dict(steps=3, classes=[36], sym=0, fail=5, menu=[("m", 36), ("f0",), ("t",), ("mm", 36, 5), ("fa",), ("m", ("L", 0)), ("r", ("L", 2))]), budget=B, reach=tags))
        r.append(Task("threads", SN, hist, dict(steps=5, classes=[], sym=0, menu=[("m", 5), ("th",), ("f0",), ("r", 12), ("fs",)], each=1), budget=B, reach=["end"]))
    return r


def pages(c):
    """symbolic large sizes"""
    hm, M = c.hm, c.M
    fresh(c, region=True)
    ref = Ref(hm, True)
    s = c.size("size", 20000, 60000)
    t = c.size("size2", 20000, 60000)
    p = conc(c, c.call("h_malloc", s))
    if p == 0:
        c.fail("allocation failed although memory is available")
    ref.add(p, None, up(s) if not isinstance(s, E) else X.and_(64, X.add(64, s, 4095), ~4095 & X.MASK[64]))
    compare(c, ref)
    q = conc(c, c.call("h_realloc", p, t))
    ref.drop(p)
    ref.add(q, None, X.and_(64, X.add(64, t, 4095), ~4095 & X.MASK[64]))
    compare(c, ref, "after a resize")
    c.call("h_free", q)
    ref.drop(q)
    compare(c, ref, "after everything was freed")
    c.reach("end")
