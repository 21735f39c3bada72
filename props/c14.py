from hmsym.explore import Stop
from hmsym.runner import Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from hmsym import fam, expr as X
from hmsym.expr import E

PROP = Prop("C14", bounds=["all histories of up to 5 (quick) or 7 (thorough) insertions, deletions, moves and in-place shrinks of blocks at up to 6 chosen addresses whose home slots collide, chain and wrap around the end of the table",
                           "two or three blocks at arbitrary page addresses of a window of 2^14 pages", "tables filled to the growth threshold and beyond (128 to 512 entries), arbitrary deletions around the growth; tables whose entries crowd around their ends through two growths, with a refused remapping",
                           "after every step every candidate address (live, dead, inside a block, next to one) is looked up"],
            assumptions=["the kernel may place a mapping at any free page (the addresses are chosen by the check)", "addresses with colliding home slots are found by looking where the real code puts a single entry"])
WINDOW = 0x200000000000
STRIDE = 1 << 30


def C(**k):
    d = dict(EXTENDED_SIZE_CLASSES=False, GUARD_SIZE_DIVISOR=100000, REGION_QUARANTINE_RANDOM_LENGTH=0, REGION_QUARANTINE_QUEUE_LENGTH=0)
    d.update(k)
    return Cfg("default", name="no-ext,guard-1-page,no-region-quarantine" + "".join(",%s=%s" % x for x in sorted(k.items())), **d)


def place(c, base):
    """the next mapping is made at base, so that the block starts one page later"""
    g = c.M.ghost

    def pol(M, n):
        b = g.get("next_base")
        if b is None:
            raise Exception("unexpected mapping")
        g["next_base"] = None
        return b
    g["mmap_policy"] = pol
    g["next_base"] = base


def homes(c):
    """home slots of candidate pages, seen in the real table (one entry at a time)"""
    hm = c.hm
    lay = hm.lay
    if hm.state is None or lay.get("off_regions_a") is None or lay.get("sizeof_region_metadata") is None:
        return None
    tab = hm.state + lay.off_regions_a
    n = lay.initial_region_table or 128
    by = {}
    for i in range(c.params.get("scan", 700)):
        base = WINDOW + i * STRIDE + ((i * 7919) % 1013) * PAGE
        place(c, base)
        p = c.call("h_malloc", 100000)
        slot = None
        for k in range(n):
            if hm.rd(tab + k * lay.sizeof_region_metadata + lay.rm_p, 8) == p:
                slot = k
                break
        c.call("h_free", p)
        if slot is None:
            return None
        by.setdefault(slot, []).append(p - PAGE)
    return by


def setup(c):
    M = c.M
    # the search for addresses leaves no trace in the history that is checked
    s = M.snap()
    ev = list(M.events)
    try:
        by = homes(c)
    finally:
        M.restore(s)
        M.events[:] = ev
    sets = []
    n = c.hm.lay.get("initial_region_table") or 128
    if by:
        def take(*slots):
            used = {}
            out = []
            for x in slots:
                l = by.get(x % n, [])
                k = used.get(x % n, 0)
                if k < len(l):
                    out.append(l[k])
                    used[x % n] = k + 1
            return out
        e = n - 1
        sets = [take(60, 60, 60, 60, 60), take(0, 0, e, 1, e, 0), take(1, 0, 1, e, 0, e - 1), take(10, 11, 10, 12, 11, 10), take(e, 0, e, e - 1, 1)]
    else:
        sets = [[WINDOW + (i * 7919 + j * 104729) % 100003 * (64 * PAGE) for i in range(6)] for j in range(5)]
    return dict(sets=sets)


NOTFOUND = (1 << 64) - 1


def lookup_all(c, live, dead, near=True):
    """live: {p: usable}; dead: addresses that are not starts of live blocks"""
    for p, u in live.items():
        r = c.call("h_malloc_usable_size", p)
        c.prove(X.eq(64, r, u), "a live large block is not found with its size")
        r = c.call("h_malloc_object_size", p)
        c.prove(X.eq(64, r, u), "a live large block is not found with its size")
    for p in dead:
        if p in live:
            continue
        r = c.call("h_malloc_object_size", p)
        c.prove(X.eq(64, r, NOTFOUND), "an address that is not the start of a live large block is found")


SZ = (20480, 40960, 28672, 57344, 24576, 49152)


def toggle(c):
    P = c.params
    M = c.M
    sets = P["st"]["sets"]
    s = sets[P["set"]]
    live = {}      # base -> (p, usable)
    log = c.info["ops"] = []
    every = [b + PAGE for b in s]
    for step in range(P["steps"]):
        k = c.pick("which", len(s))
        b = s[k]
        if b in live:
            how = c.pick("how", 3 if live[b][1] > 24576 else 2) if P.get("more") else 0
            p, u = live[b]
            log.append("%s %d" % (("free", "free-sized", "shrink")[how], k))
            if how == 0:
                c.call("h_free", p)
                del live[b]
            elif how == 1:
                c.call("h_free_sized", p, u)
                del live[b]
            else:
                q = c.call("h_realloc", p, 20480)
                if q != p:
                    c.fail("a shrunk large block moved")
                live[b] = (p, 20480)
        else:
            log.append("alloc %d" % k)
            place(c, b)
            p = c.call("h_malloc", SZ[k])
            if p != b + PAGE:
                c.fail("block not inside its mapping")
            live[b] = (p, SZ[k])
        lookup_all(c, {p: u for p, u in live.values()}, every)
        g = c.hm.rd
    # at the end every live block can be released exactly, and nothing else
    k = c.pick("last", len(s))
    p = s[k] + PAGE
    if s[k] not in live:
        kd, v = c.attempt("h_free", p)
        if kd != "fatal":
            c.fail("freeing an address that is not a live block was accepted (%s)" % kd)
        c.reach("fatal")
        return
    c.call("h_free", p)
    del live[s[k]]
    lookup_all(c, {p: u for p, u in live.values()}, every)
    # the whole reservation of that block is gone: its guard size was remembered
    if mapping_range(M, p) or mapping_range(M, p - PAGE):
        c.fail("freed block is not unmapped completely")
    for i in range(1, 1 + SZ[k] // PAGE):
        if mapping_range(M, p + i * PAGE):
            c.fail("freed block is not unmapped completely")
    c.ok_kernel()
    c.reach("end")


def symbolic(c):
    """blocks at arbitrary pages"""
    P = c.params
    M = c.M
    n = P["n"]
    ps = []
    us = []
    for i in range(n):
        x = c.size("page%d" % i, 0, P["window"] - 1)
        p0 = X.add(64, WINDOW, X.shl(64, x, 24))
        for q in ps:
            c.assume(X.ne(64, X.add(64, p0, PAGE), q))
        place(c, p0)
        p = c.call("h_malloc", SZ[i])
        c.prove(X.eq(64, p, X.add(64, p0, PAGE)), "block not inside its mapping")
        ps.append(p)
        us.append(SZ[i])
        c.info["p%d" % i] = p
    k = c.pick("free", n)
    live = list(range(n))
    c.call("h_free", ps[k])
    live.remove(k)
    for j in range(n):
        r = c.call("h_malloc_object_size", ps[j])
        if j in live:
            c.prove(X.eq(64, r, us[j]), "a live large block is not found with its size")
        else:
            c.prove(X.eq(64, r, NOTFOUND), "an address that is not the start of a live large block is found")
    # an arbitrary other address
    x = c.size("other", 0, P["window"] - 1)
    a = X.add(64, WINDOW + PAGE, X.shl(64, x, 24))
    r = c.call("h_malloc_object_size", a)
    want = NOTFOUND
    for j in live:
        want = X.ite(64, X.eq(64, a, ps[j]), us[j], want)
    c.prove(X.eq(64, r, want), "lookup of an address does not match the live large blocks")
    c.reach("end")


def grow_setup(c):
    P = c.params
    bl = []
    for i in range(P["fill"]):
        base = WINDOW + i * P["stride"]
        place(c, base)
        s = 20480 + PAGE * (i % 5)
        u = large_usable(c.hm, s)
        p = c.call("h_malloc", s)
        bl.append((p, u))
    return bl


def grow(c):
    """deletions around the growth of the table; every entry is looked up afterwards"""
    P = c.params
    bl = list(P["st"])
    dead = []
    nb = [0]
    log = c.info["ops"] = []

    def new():
        i = P["fill"] + nb[0]
        nb[0] += 1
        base = WINDOW + i * P["stride"]
        place(c, base)
        p = c.call("h_malloc", 32768)
        c.prove(X.ne(64, p, 0), "allocation returned NULL although memory is available")
        bl.append((p, 32768))
    for r in range(P["rounds"]):
        o = c.pick("op", 4)
        log.append(("new", "free first", "free last", "free middle")[o])
        if o == 0:
            for _ in range(P["batch"]):
                new()
        else:
            k = (0, len(bl) - 1, len(bl) // 2)[o - 1]
            p, u = bl.pop(k)
            c.call("h_free", p)
            dead.append(p)
    lookup_all(c, dict(bl), dead)
    j = c.pick("inner", 3)
    p, u = bl[(0, len(bl) // 3, len(bl) - 1)[j]]
    for a in (p + PAGE, p - PAGE, p + u, p + 16):
        if a not in dict(bl):
            r = c.call("h_malloc_object_size", a)
            c.prove(X.eq(64, r, NOTFOUND), "an address that is not the start of a live large block is found")
    for p, u in bl[::7]:
        c.call("h_free", p)
        bl.remove((p, u))
    lookup_all(c, dict(bl), dead)
    c.ok_kernel()
    c.reach("end")


def refused(c):
    """the table cannot grow: the allocation fails, the table stays as it was and grows later"""
    P = c.params
    bl = list(P["st"])
    M = c.M
    i = P["fill"]
    k = c.pick("which", 4)
    cnt = [0]

    def f(M, name, args):
        cnt[0] += 1
        return 12 if cnt[0] - 1 == k else 0
    got = None
    nfail = 0
    for t in range(P["tries"]):
        place(c, WINDOW + (i + t) * P["stride"])
        cnt[0] = 0
        M.ghost["fault"] = f
        p = c.call("h_malloc", 32768)
        M.ghost["fault"] = None
        if c.branch(X.eq(64, p, 0)):
            nfail += 1
        else:
            bl.append((p, 32768))
        lookup_all(c, dict(bl[::3] + bl[-2:]), [WINDOW + (i + t) * P["stride"] + PAGE])
    lookup_all(c, dict(bl), [])
    for t in range(2):
        place(c, WINDOW + (i + P["tries"] + t) * P["stride"])
        p = c.call("h_malloc", 32768)
        c.prove(X.ne(64, p, 0), "allocation returned NULL although memory is available")
        bl.append((p, 32768))
    for p, u in bl[::5]:
        c.call("h_free", p)
    lookup_all(c, {p: u for j, (p, u) in enumerate(bl) if j % 5}, [p for p, u in bl[::5]])
    c.reach("end")


def again(c):
    """a refusal while the table grows; freed blocks do not come back when it grows again, and again"""
    P = c.params
    bl = list(P["st"])
    dead = []
    M = c.M
    k = c.pick("which", 5)
    cnt = [0]
    i = [P["fill"]]

    def new():
        place(c, WINDOW + i[0] * P["stride"])
        i[0] += 1
        p = c.call("h_malloc", 32768)
        if not c.branch(X.eq(64, p, 0)):
            bl.append((p, 32768))
            return True

    def f(M, name, args):
        cnt[0] += 1
        return 12 if cnt[0] - 1 == k else 0
    for t in range(2):
        cnt[0] = 0
        M.ghost["fault"] = f
        new()
        M.ghost["fault"] = None
    for x in bl[:P["fill"]:1 + c.pick("every", 2)]:
        c.call("h_free", x[0])
        bl.remove(x)
        dead.append(x[0])
    while len(bl) < P["until"]:
        if not new():
            c.fail("allocation returned NULL although memory is available")
    lookup_all(c, dict(bl), dead)
    for p, u in bl[::3]:
        c.call("h_free", p)
    lookup_all(c, {p: u for j, (p, u) in enumerate(bl) if j % 3}, dead + [p for p, u in bl[::3]])
    c.ok_kernel()
    c.reach("end")


def dense_setup(c):
    """addresses whose home slots crowd around the ends of the table, then arbitrary ones"""
    M = c.M
    s = M.snap()
    ev = list(M.events)
    try:
        by = homes(c)
    finally:
        M.restore(s)
        M.events[:] = ev
    n = c.hm.lay.get("initial_region_table") or 128
    first = []
    if by:
        for d in ((0, n - 1, 1, n - 2), (n - 1, 0, n - 2, 1), (0,), (n - 1, n - 3))[c.params["order"]]:
            first += by.get(d, [])[:c.params["each"]]
    rest = [b for b in (WINDOW + i * STRIDE + ((i * 7919) % 1013) * PAGE for i in range(700)) if b not in first]
    return (first + rest)[:c.params["total"]]


def dense(c):
    """two growths of a table crowded around its ends, with and without a refused request; freed blocks do not come back"""
    P = c.params
    M = c.M
    bases = list(P["st"])
    bl, dead = [], []
    k = c.pick("refused", 3) - 1
    c.info["refused"] = k
    cnt = [0]

    def f(M, name, args):
        if name != "mmap_fixed":
            return 0
        cnt[0] += 1
        return 12 if cnt[0] - 1 == k else 0

    def new(fail=False):
        b = bases.pop(0)
        place(c, b)
        p = c.call("h_malloc", 32768)
        if c.branch(X.eq(64, p, 0)):
            if not fail:
                c.fail("allocation returned NULL although memory is available")
            M.ghost["next_base"] = None
            return
        bl.append((p, 32768))
    for _ in range(96):
        new()
    every = c.pick("every", 3)
    # growth, then some of the oldest and of the newest are freed
    M.ghost["fault"] = f if k >= 0 else None
    for _ in range(3):
        cnt[0] = 0
        new(True)
    M.ghost["fault"] = None
    lookup_all(c, dict(bl), dead)
    out = (bl[:40:3], bl[:12], bl[-30::2] + bl[1:20:4])[every]
    for x in out:
        c.call("h_free", x[0])
        bl.remove(x)
        dead.append(x[0])
    lookup_all(c, dict(bl), dead, near=False)
    while bases:
        new()
    lookup_all(c, dict(bl), dead)
    for p, u in bl[::3]:
        c.call("h_free", p)
    lookup_all(c, {p: u for j, (p, u) in enumerate(bl) if j % 3}, dead + [p for p, u in bl[::3]], near=False)
    c.ok_kernel()
    c.reach("end")


def tasks(tier, seed):
    T = tier == "thorough"
    B = 120 if T else 15
    r = []
    cfg = C()
    for j in range(5):
        r.append(Task("toggle/%d" % j, cfg, toggle, dict(set=j, steps=7 if T else 5), setup=setup, budget=B, reach=["end"]))
    r.append(Task("shrink/1", cfg, toggle, dict(set=1, steps=5 if T else 4, more=1), setup=setup, budget=B, reach=["end"]))
    r.append(Task("shrink/3", C(LARGE_SIZE_CLASSES=False), toggle, dict(set=3, steps=5 if T else 4, more=1), setup=setup, budget=B, reach=["end"]))
    for n in (2, 3) if T else (2,):
        r.append(Task("symbolic/%d" % n, cfg, symbolic, dict(n=n, window=1 << 14), budget=B * 2, reach=["end"]))
    for fill, batch in ((96, 2), (95, 3), (192, 2)) + (((383, 3),) if T else ()):
        r.append(Task("grow/%d" % fill, cfg, grow, dict(fill=fill, batch=batch, rounds=6 if T else 4, stride=64 << 12), setup=grow_setup, budget=B, reach=["end"]))
    r.append(Task("grow-scattered/96", cfg, grow, dict(fill=96, batch=2, rounds=6 if T else 4, stride=(1 << 26) + 37 * PAGE), setup=grow_setup, budget=B, reach=["end"]))
    for fill in (96, 192):
        r.append(Task("refused-again/%d" % fill, cfg, again, dict(fill=fill, until=fill * 2 + 4, stride=(1 << 26) + 37 * PAGE), setup=grow_setup, budget=B * 2, reach=["end"]))
        r.append(Task("refused/%d" % fill, cfg, refused, dict(fill=fill, tries=3, stride=64 << 12), setup=grow_setup, budget=B, reach=["end"]))
    for order in range(4):
        r.append(Task("dense/%d" % order, cfg, dense, dict(order=order, each=5, total=420 if T else 215, enum=64), setup=dense_setup, budget=B * 2, reach=["end"]))
    return r
