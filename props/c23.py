from hmsym.explore import Stop
from hmsym.runner import Cfg, Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from hmsym import env, solve as S, expr as X
from hmsym.expr import E
from hmsym.machine import USER_BASE, ENOMEM, EINVAL, STACK_TOP, TLS_BASE

PROP = Prop("C23", bounds=["initialization with every random word symbolic: the start of each class of each arena for all drawn values at once, the guard around the allocator state for all drawn values at once (then the smallest, middle and largest in turn)",
                           "first call: any of 7 public functions; afterwards histories of up to 3 (quick) or 5 (thorough) operations, incl. growth of the region table, thread arenas, trim and a fork",
                           "each system call, lock initialization, fork handler registration, page size query and random-byte request of the initialization failing in turn",
                           "classes filled to the end of their range in a build with a small class region"],
            assumptions=["draws accepted at once (the draw itself is C22)", "the classes of an arena are told apart by the range of the address they hand out", "concurrent initialization is C19"])
MIB = 1 << 20


def base_mids(hm):
    return {s[4] for s in hm.zero_snap_segs} if hasattr(hm, "zero_snap_segs") else set()


def mappings(M):
    """{mapping id: (start, end)} of everything mapped by the allocator; protections by segment"""
    r = {}
    for s in M.segs:
        if s[0] < 0x100000000000 or USER_BASE <= s[0] < USER_BASE + MIB or s[0] >= TLS_BASE and TLS_BASE > USER_BASE:
            continue
        a, b = r.get(s[4], (s[0], s[1]))
        r[s[4]] = (min(a, s[0]), max(b, s[1]))
    return r


def writable_globals(c, what=""):
    """no writable global holds an address of the allocator's memory; the whole set of initialized pointers is read-only"""
    hm, M = c.hm, c.M
    maps = [(s[0], s[1]) for s in M.segs if 0x100000000000 <= s[0] < USER_BASE]
    lo, hi = min(m[0] for m in maps), max(m[1] for m in maps)
    seen = 0
    for pg, ws in sorted(M.pages.items()):
        if not 0x800 <= pg < (M.prog.rw_end + 4095) >> 12:
            continue
        pr = M.prot(pg) & 2
        for a, x in ws.items():
            if isinstance(x, E):
                v = X.ev(x, M.model) if X.varsof(x) else 0
            else:
                v = x
            if any(s <= v <= e for s, e in maps):
                seen += 1
                if pr:
                    c.fail("a writable global variable (offset %#x) holds an address inside the allocator's memory %s" % (a - 0x800000 if a > 0x800000 else a, what))
    if seen < 3:
        c.reach("no-global-pointers")
    else:
        c.reach("globals")


def state_layout(c, live, what=""):
    """allocator state: one mapping of its own, inaccessible on both sides"""
    hm, M = c.hm, c.M
    maps = mappings(M)
    acc = {}
    for s in M.segs:
        if s[4] in maps and s[2] & 3:
            acc.setdefault(s[4], []).append((s[0], s[1]))
    st = []
    for mid, l in acc.items():
        a, b = maps[mid]
        if a <= hm.slab_start < b:
            continue
        if any(a <= p < b for p in live):
            continue
        st.append((mid, a, b, l))
    if len(st) != 1:
        if not st:
            c.fail("the allocator has no state mapping of its own " + what)
        st.sort(key=lambda x: x[2] - x[1])
        c.fail("accessible memory of %d other mappings is left %s" % (len(st) - 1, what))
    mid, a, b, l = st[0]
    lead = min(x[0] for x in l) - a
    trail = b - max(x[1] for x in l)
    c.prot(a)
    c.prot(b - 4096)
    if lead < 4096 or trail < 4096:
        c.fail("no inaccessible guard next to the allocator state %s" % what)
    sz = hm.lay.get("sizeof_allocator_state")
    if sz and b - a >= sz:
        sz = (sz + 4095) & ~4095
        g = (b - a - sz)
        if g < 2 * 4096:
            c.fail("the mapping of the allocator state has no room for guards")
        if lead > hm.real or lead + sz + 4096 > b - a:
            c.fail("the allocator state overlaps its guards %s" % what)
    return a, b, lead


def region_closed(c, ranges, what=""):
    """nothing of the small-allocation region is accessible outside the given ranges"""
    M, hm = c.M, c.hm
    for s in M.segs:
        if s[2] & 3 and s[0] < hm.slab_end and s[1] > hm.slab_start:
            if not any(a <= s[0] and s[1] <= b for a, b in ranges):
                c.fail("the small-allocation region is accessible at offset %#x %s" % (s[0] - hm.slab_start, what))


FIRST = ["large", "usable", "trim", "objsize", "free0", "badfree", "memalign"]


def first(c):
    """any function may be the first one"""
    hm, M = c.hm, c.M
    c.symbolic_random(False)
    names = FIRST + (["disable", "purge", "tagging"] if "h_malloc_disable" in hm.prog.defs else [])
    k = names[c.pick("first", len(names))]
    c.info["first"] = k
    live = []
    if k == "large":
        live.append(c.call("h_malloc", 300000))
    elif k == "memalign":
        live.append(c.call("h_aligned_alloc", 8192, 300000))
    elif k == "usable":
        c.call("h_malloc_usable_size", 0)
        live.append(c.call("h_malloc", 300000))
    elif k == "trim":
        c.call("h_malloc_trim", 0)
        live.append(c.call("h_malloc", 300000))
    elif k == "disable":
        c.call("h_malloc_disable")
        c.call("h_malloc_enable")
        live.append(c.call("h_malloc", 300000))
    elif k == "purge":
        c.call("h_mallopt", X.MASK[32] - 100, 0)
        live.append(c.call("h_malloc", 300000))
    elif k == "tagging":
        c.call("h_malloc_disable_memory_tagging")
        live.append(c.call("h_malloc", 300000))
    elif k == "objsize":
        c.call("h_malloc_object_size", USER_BASE)
        live.append(c.call("h_malloc", 300000))
    elif k == "free0":
        c.call("h_free", 0)
        live.append(c.call("h_malloc", 300000))
    else:
        kind, v = c.attempt("h_free", USER_BASE + 64)
        if kind != "fatal":
            c.fail("free of a foreign pointer as the first call: %s" % kind)
        c.reach("end")
        raise Stop
    if not live[-1]:
        c.fail("allocation failed although memory is available")
    hm.find_layout()
    writable_globals(c)
    state_layout(c, live)
    region_closed(c, [])
    c.ok_kernel()
    c.reach("end")


def placed(c):
    """where each class of each arena starts, and how large the guards of the state are, for every random word"""
    P = c.params
    hm, M = c.hm, c.M
    c.symbolic_random()
    sz = (hm.lay.get("sizeof_allocator_state", 0) + 4095) & ~4095
    which = P["guard"]
    got = []

    def fault(M, name, args):
        if name == "mmap" and isinstance(args[1], E) and not got:
            got.append(args[1])
            m = sz + 2 * 4096
            mx = sz + 2 * hm.real
            n = {"min": m, "max": mx, "mid": (m + mx) // 2 & ~8191 | sz & 8191}[which]
            got.append(n)
            r = S.check(list(M.pc) + [X.eq(64, args[1], n)], 10)
            got.append(r[0])
            got.append(S.check(list(M.pc) + [X.not_(X.and_(1, X.uge(64, args[1], m), X.and_(1, X.ule(64, args[1], mx), X.eq(64, X.and_(64, X.sub(64, args[1], sz), 8191), 0))))], 10)[0])
            M.assume(X.eq(64, args[1], n if r[0] == S.SAT else M.val(args[1])))
        return 0
    M.ghost["fault"] = fault
    p = c.call("h_malloc", 300000)
    if isinstance(p, E):
        p = M.choose(p)
    M.ghost["fault"] = None
    hm.find_layout()
    if not got:
        c.fail("the guards around the allocator state do not have a random size")
    if got[3] != S.UNSAT:
        c.fail("the guards around the allocator state are not between one page and the documented maximum for every random draw")
    if got[2] != S.SAT:
        c.reach("no-%s-guard" % which)
    state_layout(c, [p])
    # every address inside the small-allocation region kept in the allocator state
    start, crs, real = hm.slab_start, hm.crs, hm.real
    a, b = hm.state_map
    seen = {}
    fixed = {}
    n = hm.nclass * hm.narena
    for pg, ws in sorted(M.pages.items()):
        if not a >> 12 <= pg < b >> 12:
            continue
        for ad, x in sorted(ws.items()):
            if not isinstance(x, E):
                if start <= x < hm.slab_end and x & 4095 == 0:
                    fixed.setdefault((x - start) // real, x)
                continue
            v = X.ev(x, M.model)
            if start <= v < hm.slab_end and x.op != "var":
                k = (v - start) // real
                seen.setdefault(k, []).append(x)
    for k in fixed:
        if k not in seen and len(seen) + len(fixed) >= n:
            c.fail("the class region of arena %d class %d has a fixed place" % (k // hm.nclass, k % hm.nclass))
    if len(seen) < n:
        c.reach("starts-not-kept")
        return
    for k, l in sorted(seen.items()):
        for x in l:
            lo = start + k * real
            what = "arena %d class %d" % (k // hm.nclass, k % hm.nclass)
            c.prove(X.eq(64, X.and_(64, x, 4095), 0), "the class region of %s is not page aligned" % what)
            c.prove(X.uge(64, x, lo + 4096), "the class region of %s starts without inaccessible space before it" % what)
            c.prove(X.ule(64, x, lo + real - crs - 4096), "the class region of %s ends without inaccessible space after it" % what)
            if P.get("range"):
                for v in (lo + 4096, lo + real - crs - 4096):
                    vs = X.varsof(x)
                    if any(X.ev(x, {y: w for y in vs}) == v for w in (1, X.MASK[64])):
                        continue
                    if S.check([X.eq(64, x, v)], 10)[0] == S.UNSAT:
                        c.fail("the class region of %s never starts at offset %#x" % (what, v - lo))
    vs = [x[0] for x in seen.values()]
    # independent draws: no class shares its random word with another
    src = {}
    for k, l in seen.items():
        for v in X.varsof(l[0]):
            src.setdefault(v, []).append(k)
    for v, ks in src.items():
        for i in range(len(ks)):
            for j in range(i):
                x, y = seen[ks[i]][0], seen[ks[j]][0]
                d = X.sub(64, X.sub(64, x, y), (ks[i] - ks[j]) * real)
                if S.check([X.not_(X.eq(64, d, 0))], 10)[0] == S.UNSAT:
                    c.fail("two classes always start at the same offset of their ranges")
    c.reach("starts")
    c.reach("end")


def draws(c, word):
    """initialize with every draw at the given (accepted) raw value"""
    c.M.ghost["ksmode"] = lambda M, k, n: [word] * ((n + 7) // 8)
    p = c.call("h_malloc", 300000)
    if word < 0x10000:
        c.M.ghost["ksmode"] = lambda M, k, n: [word * 0x1000100010001] * ((n + 7) // 8)
    return p


def extremes(c):
    """first block of every class in every arena with the smallest and the largest draw; ranges are disjoint"""
    P = c.params
    hm, M = c.hm, c.M
    tab = []
    big = draws(c, P["word"])
    hm.find_layout()
    acc = []
    for ar in range(hm.narena):
        c.thread(ar)
        for k in range(hm.nclass):
            lo, hi = class_range(hm, k)
            p = c.call("h_malloc", hi)
            if isinstance(p, E):
                p = M.choose(p)
            if p == 0:
                c.fail("allocation failed although memory is available")
            if not hm.slab_start <= p < hm.slab_end:
                c.fail("a small block lies outside the small-allocation region")
            r = (p - hm.slab_start) // hm.real
            tab.append(r)
            a = hm.slab_start + r * hm.real
            if k == 0 and hm.sizes[0] == 0:
                continue
            b = [s for s in M.segs if s[0] <= p < s[1]][0]
            if b[0] - a < 4096 or b[0] - a + hm.crs + 4096 > hm.real:
                c.prot(p)
                c.fail("class %d of arena %d: the class region is not surrounded by unused space in its range" % (k, ar))
            acc.append((b[0], b[0] + hm.slab_size(k)))
    if len(set(tab)) != len(tab):
        c.fail("two classes share a range")
    region_closed(c, acc)
    writable_globals(c)
    state_layout(c, [big])
    for ar in range(hm.narena):
        ks = tab[ar * hm.nclass:(ar + 1) * hm.nclass]
        if max(ks) >= hm.nclass * hm.narena:
            c.fail("a range lies outside the region")
    c.reach("end")


def fill_class(c):
    """a class never leaves its range, whatever its offset"""
    P = c.params
    hm, M = c.hm, c.M
    cls = P["cls"]
    lo, hi = class_range(hm, cls)
    draws(c, P["word"])
    hm.find_layout()
    ps = []
    for i in range(2 * hm.crs // hm.slab_size(cls) * hm.slots[cls] + 2):
        p = c.call("h_malloc", hi)
        if isinstance(p, E):
            p = M.choose(p)
        if p == 0:
            break
        ps.append(p)
    else:
        c.fail("a class hands out more memory than its region holds")
    if not ps:
        c.fail("allocation failed although memory is available")
    r = {(p - hm.slab_start) // hm.real for p in ps}
    if len(r) != 1:
        c.fail("blocks of one class lie in several ranges")
    a = hm.slab_start + r.pop() * hm.real
    sz = class_usable(hm, cls)
    acc = [(s[0], s[1]) for s in M.segs if s[2] & 3 and a <= s[0] < a + hm.real]
    if min(x[0] for x in acc) < a + 4096 or max(x[1] for x in acc) > a + hm.real - 4096:
        c.fail("the class region is not surrounded by inaccessible space")
    if max(x[1] for x in acc) - min(x[0] for x in acc) > hm.crs:
        c.fail("a class uses more than its region")
    c.reach("end")


OPS = ["m", "L", "f", "r", "t", "thread", "many", "fork", "fatal"]


def later(c):
    """the globals stay read-only and free of allocator addresses, the state guards stay closed"""
    P = c.params
    hm, M = c.hm, c.M
    c.symbolic_random(False)
    live = [c.call("h_malloc", 300000)]
    small = []
    hm.find_layout()
    a, b, lead = state_layout(c, live)
    log = c.info["ops"] = []
    rng = set()
    for i in range(P["steps"]):
        o = P["menu"][c.pick("op", len(P["menu"]))]
        log.append(o)
        if o == "m":
            small.append(c.call("h_malloc", 100))
        elif o == "L":
            live.append(c.call("h_malloc", 500000))
        elif o == "f":
            q = small or live[1:]
            if not q:
                raise Stop
            c.call("h_free", q[-1])
            (small if q is small else live).remove(q[-1])
        elif o == "r":
            live[0] = c.call("h_realloc", live[0], 700000 if i % 2 == 0 else 200000)
        elif o == "t":
            c.call("h_malloc_trim", 0)
        elif o == "thread":
            c.thread(M.tid + 1)
            small.append(c.call("h_malloc", 40))
        elif o == "many":
            for j in range(100):
                live.append(c.call("h_malloc", 200000))
        elif o == "fork":
            c.call("@prepare")
            c.call("@child")
        w = "after " + ",".join(log)
        writable_globals(c, w)
        q = [s for s in M.segs if a <= s[0] < b]
        acc = [s for s in q if s[2] & 3]
        sz = (hm.lay.get("sizeof_allocator_state", 0) + 4095) & ~4095
        if min(s[0] for s in acc) < a + lead or max(s[1] for s in acc) > (a + lead + sz if sz else b - 4096):
            c.prot(a)
            c.fail("the guards of the allocator state became accessible " + w)
    c.ok_kernel()
    c.reach("end")


def failing(c):
    """every step of the initialization that can fail"""
    P = c.params
    hm, M = c.hm, c.M
    c.symbolic_random(False)
    kind = P["kind"]
    n = [0]
    at = c.pick("at", P["n"])
    hit = []
    size = 300000

    if kind in ("mmap", "mprotect", "munmap"):
        def fault(M, name, args):
            if name == kind:
                n[0] += 1
                if n[0] - 1 == at:
                    hit.append(args)
                    return ENOMEM
            return 0
        M.ghost["fault"] = fault
    elif kind == "mutex":
        def mf(M, m):
            n[0] += 1
            if n[0] - 1 == at:
                hit.append(m)
                return EINVAL
            return 0
        M.ghost["mutex_init_fail"] = mf
    elif kind == "atfork":
        M.ghost["atfork_fail"] = ENOMEM
        hit.append(1)
    elif kind == "pagesize":
        M.ghost["pagesize"] = [8192, 16384, 65536, -1 & X.MASK[64], 2048, 0][at]
        hit.append(1)
    elif kind == "getrandom":
        def gr(M, buf, k, flags):
            n[0] += 1
            if n[0] - 1 == at:
                hit.append(1)
                env.ev(M, "getrandom", k, 0, X.MASK[64], 38, [])
                env.set_errno(M, 38)
                return X.MASK[64]
            b = [(i * 37 + 11) & 255 for i in range(k)]
            for i, x in enumerate(b):
                M.store(buf + i, 1, x)
            env.ev(M, "getrandom", k, 0, k, 0, b)
            return k
        M.ghost["getrandom"] = gr
    k, v = c.attempt("h_malloc", P.get("req", 20))
    if not hit:
        if at == 0 and kind in ("mmap", "mprotect"):
            c.fail("the initialization makes no such call")
        c.reach("none")
        raise Stop
    if k == "fatal":
        c.reach("fatal")
        raise Stop
    if k != "ret":
        c.fail("the initialization failed with %s instead of a fatal error" % k)
    if kind in ("atfork", "pagesize", "getrandom", "mutex") or P.get("strict", 1) and at < P.get("init", 99) and v != 0 and kind == "mmap":
        c.fail("a failed initialization step (%s) is ignored" % kind)
    # tolerated: everything must be as after a normal initialization
    c.reach("tolerated")
    M.ghost["fault"] = None
    big = c.call("h_malloc", 300000)
    hm.find_layout()
    writable_globals(c, "after a refused %s" % kind)
    if v == 0:
        c.reach("alloc-failed")
        raise Stop
    p = c.call("h_malloc", 20)
    state_left(c, [big, p, v], kind)


def state_left(c, live, kind):
    """leftovers of a refused release hold nothing"""
    M, hm = c.M, c.hm
    maps = mappings(M)
    for mid, (a, b) in maps.items():
        if any(a <= p < b for p in live) or a <= hm.slab_start < b or hm.state_map and hm.state_map[0] <= a < hm.state_map[1]:
            continue
        for pg, ws in M.pages.items():
            if a >> 12 <= pg < b >> 12 and any(x != 0 for x in ws.values()):
                if M.prot(pg) & 3:
                    c.fail("secrets of the initialization stay in memory after a refused %s" % kind)


NOZ = dict(ZERO_ON_FREE=False, WRITE_AFTER_FREE_CHECK=False)


def tasks(tier, seed):
    T = tier == "thorough"
    B = 200 if T else 35
    r = []
    SMALL = Cfg("default", CLASS_REGION_SIZE=1 << 20, name="default,class-region-1M", **NOZ)
    NS = Cfg("default", SELF_INIT=False, name="default,no-self-init") if False else None
    A1 = Cfg("light", N_ARENA=1, name="light,1-arena")
    for cfg in (D, L, NE, android("android")) if T else (D, android("android")):
        r.append(Task("first/" + cfg.name, cfg, first, {}, boot=False, budget=B, reach=["end"]))
    for cfg in (D, L) if not T else (D, L, NE, A1, SMALL):
        for g in ("min", "max", "mid") if cfg is D or T else ("mid",):
            r.append(Task("placed/%s/%s" % (g, cfg.name), cfg, placed, dict(guard=g, range=g == "mid"), boot=False, budget=B, reach=["end"], max_paths=4))
    for cfg in (D, NE, L, A1, SMALL) if T else (D, NE):
        for nm, w in (("smallest", 1), ("largest", X.MASK[64]), ("middle", 0x7fffffffffffffff)):
            r.append(Task("extremes/%s/%s" % (nm, cfg.name), cfg, extremes, dict(word=w), boot=False, budget=B, reach=["end"]))
    for k in (48, 45, 40, 24, 12, 1) if T else (48, 24):
        for nm, w in (("smallest", 1), ("largest", X.MASK[64])):
            r.append(Task("fill/%d/%s" % (k, nm), SMALL, fill_class, dict(cls=k, word=w), boot=False, budget=B, reach=["end"]))
    r.append(Task("later/a", NE, later, dict(steps=4 if T else 3, menu=["m", "many", "r", "fork", "f"]), boot=False, budget=B, reach=["end"]))
    r.append(Task("later/b", D, later, dict(steps=5 if T else 3, menu=["L", "thread", "t", "f", "m"]), boot=False, budget=B, reach=["end"]))
    for cfg in (D, L, NE) if T else (D,):
        for kind, n in (("mmap", 6), ("mprotect", 8), ("munmap", 3), ("mutex", hmnum(cfg)), ("atfork", 1), ("pagesize", 6), ("getrandom", 2)):
            r.append(Task("fail/%s/%s" % (kind, cfg.name), cfg if kind != "pagesize" else Cfg(cfg.variant, native=False, name=cfg.name + ",page-size", **cfg.over), failing, dict(kind=kind, n=n), boot=False, budget=B, reach=["fatal"] if kind != "munmap" else []))
    return r


def hmnum(cfg):
    return 200
