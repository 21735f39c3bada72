import hashlib
from hmsym.explore import Stop
from hmsym.runner import Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from hmsym import env, expr as X
from hmsym.sweep import Sweep
from hmsym.expr import E
from hmsym.machine import USER_BASE

PROP = Prop("C21", bounds=["core: arbitrary key, nonce and 64-bit counter, output lengths 1 to 64 (quick: a selection) and 65, 127, 128, 130, 192; every output byte compared with a reference ChaCha8, nothing written beyond the length",
                           "seeding: arbitrary bytes from the operating system; every first short read length 1..39, followed by up to 2 further short or interrupted reads; every other error number (1..4095)",
                           "buffer: every position 0..256 of the buffer followed by every kind of request (2, 8 and 1..128 bytes, and 129, 256, 300 bytes taken directly) and a second one",
                           "reseeding: more than 256 KiB of buffered output, twice, by 8, 2 and 128 byte requests; the operating system's answers arbitrary, short, interrupted or failing", 
                           "generators of the running allocator: the keys of all generators used by operations after initialisation"],
            assumptions=["except in the core tasks the keystream is an uninterpreted function: fresh arbitrary bytes per call; the core tasks justify it"])
RC = Cfg("default", real_chacha=True, name="default,chacha")
ST = USER_BASE + 0x100       # generator
ST2 = USER_BASE + 0x800
OUT = USER_BASE + 0x2000


# ------------------------------------------------------------------ the cipher
def rotl(x, n):
    return X.or_(32, X.shl(32, x, n), X.lshr(32, x, 32 - n))


def qr(s, a, b, c, d):
    s[a] = X.add(32, s[a], s[b]); s[d] = rotl(X.xor(32, s[d], s[a]), 16)
    s[c] = X.add(32, s[c], s[d]); s[b] = rotl(X.xor(32, s[b], s[c]), 12)
    s[a] = X.add(32, s[a], s[b]); s[d] = rotl(X.xor(32, s[d], s[a]), 8)
    s[c] = X.add(32, s[c], s[d]); s[b] = rotl(X.xor(32, s[b], s[c]), 7)


def chacha8(key, nonce, counter):
    """reference block function: 8 key words, 2 nonce words, 2 counter words -> 16 words"""
    j = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574] + list(key) + list(counter) + list(nonce)
    x = list(j)
    for _ in range(4):
        for q in ((0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15), (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)):
            qr(x, *q)
    return [X.add(32, x[i], j[i]) for i in range(16)]


def ks_byte(block, i):
    return X.extract(block[i // 4], 8 * (i % 4) + 7, 8 * (i % 4))


SW = []


def same(c, w, a, b):
    """a = b for every value of the inputs (decided by the solver, in steps)"""
    q = X.eq(w, a, b)
    if isinstance(q, E) and c.M.val(q):
        if not SW:
            SW.append(Sweep(env.SEED))
        if SW[0].same(a, b):
            c.M.nobl += 1
            return
        m = {}
        for i in range(SW[0].k):
            if not X.ev(q, SW[0].models[i]):
                m = {v: SW[0].models[i].get(v, 0) for v in X.varsof(q)}
        if m:
            c.M.model.update(m)
    c.prove(q, "output differs from the ChaCha8 keystream")


def core(c):
    X.WHOLE = True
    try:
        core_(c)
    finally:
        X.WHOLE = False


def core_(c):
    """keystream of a keyed context = reference, for every key, nonce and counter"""
    P = c.params
    kb, ib = USER_BASE + 0x40, USER_BASE + 0x80
    sym = P["sym"]

    def arb(name, i):
        if name in sym:
            return c.var("%s%d" % (name, i), 32)
        return int.from_bytes(hashlib.sha512(("%s%d.%d" % (name, i, env.SEED)).encode()).digest()[:4], "little")
    key = [arb("k", i) for i in range(8)]
    nonce = [arb("n", i) for i in range(2)]
    for i, w in enumerate(key):
        c.wr(kb + 4 * i, w, 4)
    for i, w in enumerate(nonce):
        c.wr(ib + 4 * i, w, 4)
    c.call("chacha_keysetup", ST, kb)
    c.call("chacha_ivsetup", ST, ib)
    cnt = (0, 0)
    if P.get("counter"):
        # the counter words of the state
        if c.M.load(ST + 48, 8) != 0:
            raise Stop()
        cnt = tuple(c.var("c%d" % i, 32) if "c" in sym else P["counter"][i] for i in range(2))
        for i in range(2):
            c.wr(ST + 48 + 4 * i, cnt[i], 4)
    lens = P["lens"][c.pick("len", len(P["lens"]))]
    c.info.update(lengths=lens)
    blk = {}

    def nth(b):
        if b not in blk:
            lo, hi = cnt
            for _ in range(b):
                lo = X.add(32, lo, 1)
                hi = X.ite(32, X.eq(32, lo, 0), X.add(32, hi, 1), hi)
            blk[b] = chacha8(key, nonce, (lo, hi))
        return blk[b]
    pos = 0
    for n in lens:
        for i in range(0, n + 16, 8):
            c.wr(OUT - 8 + i, 0x5e1711e15e1711e1, 8)
        c.call("chacha_keystream_bytes", ST, OUT, n)
        full = n - n % 4
        for i in range(0, full, 4):
            same(c, 32, c.rd(OUT + i, 4), nth(pos + i // 64)[(i % 64) // 4])
        for i in range(full, n):
            same(c, 8, c.rd(OUT + i, 1), ks_byte(nth(pos + i // 64), i % 64))
        s = 0x5e1711e15e1711e1.to_bytes(8, "little")
        for i in (-1, n, n + 1, n + 7):
            c.prove(X.eq(8, c.rd(OUT + i, 1), s[(i + 8) % 8]), "bytes outside the requested output were changed")
        pos += (n + 63) // 64
    c.reach("end")


# ------------------------------------------------------------------ the generator
def taint(c):
    """keystream calls return fresh arbitrary bytes; os reads return fresh arbitrary bytes"""
    g = c.M.ghost
    log = dict(os=[], plan=[], calls=0, err=None)

    def gr(M, buf, n, flags):
        n, buf = M.conc(n), M.conc(buf)
        log["calls"] += 1
        k = log["calls"]
        if n is None or buf is None:
            c.fail("seed request of unknown length")
        if log["calls"] > 12:
            c.fail("the seed is requested without end")
        what = log["plan"].pop(0) if log["plan"] else None
        if what is not None and what[0] == "err":
            env.set_errno(M, what[1])
            env.ev(M, "getrandom", n, k, (1 << 64) - 1, what[1], [])
            return (1 << 64) - 1
        if what is not None and what[0] == "zero":
            env.ev(M, "getrandom", n, k, 0, 0, [])
            return 0
        m = min(n, what[1]) if what is not None else n
        b = []
        for i in range(m):
            v = M.fresh("os%d" % len(log["os"]), 8)
            log["os"].append(v)
            b.append(v)
            M.store(buf + i, 1, v)
        env.ev(M, "getrandom", n, k, m, 0, b)
        return m
    g["getrandom"] = gr
    g["ksmode"] = True
    return log


def source(e):
    """(variable, bit offset) when the byte e is literally a byte of a fresh value"""
    if not isinstance(e, E):
        return None
    if e.op == "var":
        return e, 0
    if e.op == "extract" and isinstance(e.a[0], E) and e.a[0].op == "var":
        return e.a[0], e.a[2]
    return None


def ctx_key(c, ctx):
    """the 40 key and nonce bytes in a cipher context"""
    return [c.M.load(ctx + i, 1) for i in list(range(16, 48)) + list(range(56, 64))]


def match(c, b, pool):
    """which byte of the pool b is; the match has to hold for every value"""
    s = source(b)
    if s is not None and s in pool:
        return s
    for k, e in pool.items():
        if isinstance(b, E) and X.varsof(b) and X.varsof(b) == X.varsof(e) and c.must(X.eq(8, b, e)):
            return k
    return None


def os_pool(log, start=0):
    return {source(v): v for v in log["os"][start:]}


def key_from(c, ctx, pool, what):
    """key and nonce are 40 different bytes of the pool"""
    used = set()
    for b in ctx_key(c, ctx):
        k = match(c, b, pool)
        if k is None:
            c.fail("key or nonce of %s contains a byte that was not delivered for it" % what)
        if k in used:
            c.fail("key or nonce of %s uses one byte twice" % what)
        used.add(k)
    return used


class Gen:
    """keeps which keystream bytes were handed out"""

    def __init__(self, c, st):
        self.c, self.st, self.given, self.ctx = c, st, set(), None

    def last_ctx(self):
        return self.c.M.ghost.get("ksctx")

    def pool(self):
        r = {}
        for e in self.c.M.events:
            if e[0] == "ks":
                for i in range(e[2]):
                    b = X.extract(e[3][i // 8], 8 * (i % 8) + 7, 8 * (i % 8)) if isinstance(e[3][i // 8], E) else None
                    if b is not None:
                        r[source(b)] = b
        return r

    def out(self, bs):
        c = self.c
        pool = self.pool()
        for b in bs:
            k = match(c, b, pool)
            if k is None:
                c.fail("a byte was handed out that is not a generated one")
            if k in self.given:
                c.fail("a keystream byte was handed out twice")
            self.given.add(k)

    def req(self, fn, n=0):
        c = self.c
        if fn == "get_random_bytes":
            if n <= 512:
                for i in range(-8, n + 8, 8):
                    c.wr(OUT + i, 0x5e1711e15e1711e1, 8)
            c.call(fn, self.st, OUT, n)
            bs = [c.rd(OUT + i, 1) for i in range(n)]
            s = 0x5e1711e15e1711e1.to_bytes(8, "little")
            for i in (-1, n, n + 1):
                c.prove(X.eq(8, c.M.load(OUT + i, 1), s[(i + 8) % 8]), "bytes outside the requested output were changed")
        else:
            v = c.call(fn, self.st)
            w = 16 if fn == "get_random_u16" else 64
            bs = [X.extract(v, 8 * i + 7, 8 * i) if isinstance(v, E) else (v >> (8 * i)) & 255 for i in range(w // 8)]
        self.out(bs)
        return bs


def junk(c):
    """whatever was in the memory of the generator before"""
    for i in range(0, 512, 8):
        c.wr(ST + i, c.var("junk%d" % i, 64) if i < 336 else 0, 8)


def seeding(c):
    """key and nonce are the operating system's bytes, however it delivers them"""
    P = c.params
    log = taint(c)
    junk(c)
    plan = []
    how = c.pick("how", 4)
    if how == 0:
        plan = [("short", 1 + c.pick("r0", 39))]
        for i in range(c.pick("more", 3)):
            plan.append((("err", 4), ("short", 1), ("short", 7))[c.pick("m%d" % i, 3)])
    elif how == 1:
        for i in range(c.pick("n", 5)):
            plan.append(("err", 4))
        if c.pick("then", 2):
            plan.append(("short", 16))
            plan.append(("err", 4))
    else:
        # failure, at once or after some bytes
        if c.pick("late", 2):
            plan.append(("short", 1 + c.pick("r0", 39)))
        if how == 2:
            e = c.var("errno", 32)
            c.assume(X.ult(32, e, 4096))
            c.assume(X.and_(1, X.ne(32, e, 0), X.ne(32, e, 4)))
            plan.append(("err", e))
        else:
            plan.append(("zero",))
    log["plan"] = list(plan)
    c.info.update(plan=[(p[0], p[1] if len(p) > 1 and isinstance(p[1], int) else "errno") for p in plan])
    if how >= 2:
        kind, _ = c.attempt("random_state_init", ST)
        if kind != "fatal":
            c.fail("no seed could be obtained but the generator was initialised (%s)" % kind)
        c.reach("fatal")
        return
    c.call("random_state_init", ST)
    g = Gen(c, ST)
    g.req("get_random_u64")
    ctx = g.last_ctx()
    key_from(c, ctx, os_pool(log), "the generator")
    c.prove(X.eq(64, c.M.load(ctx + 48, 8), 0), "the block counter of a new key does not start at zero")
    c.reach("end")


REQS = [("get_random_u16", 0), ("get_random_u64", 0)] + [("get_random_bytes", n) for n in (1, 2, 3, 7, 8, 9, 31, 40, 64, 127, 128, 129, 256, 300)]


def buffer(c):
    """every buffer position, every request: only new keystream bytes, each once"""
    P = c.params
    log = taint(c)
    junk(c)
    c.call("random_state_init", ST)
    g = Gen(c, ST)
    lo, hi = P["pos"]
    n = lo + c.pick("pos", hi - lo)
    while n > 0:
        m = min(n, 100)
        g.req("get_random_bytes", m)
        n -= m
    fn, k = P["reqs"][c.pick("req", len(P["reqs"]))]
    c.info.update(position=lo, request=(fn, k))
    g.req(fn, k)
    fn, k = P["second"][c.pick("sec", len(P["second"]))]
    g.req(fn, k)
    g.req("get_random_u16")
    c.ok_kernel()
    c.reach("end")


def derived(c):
    """a derived generator: its key is output of the other one, which nobody else gets"""
    P = c.params
    log = taint(c)
    junk(c)
    c.call("random_state_init", ST)
    g = Gen(c, ST)
    lo, hi = P["pos"]
    n = lo + c.pick("pos", hi - lo)
    while n > 0:
        m = min(n, 100)
        g.req("get_random_bytes", m)
        n -= m
    for i in range(0, 512, 8):
        c.wr(ST2 + i, c.var("junk2%d" % i, 64) if i < 336 else 0, 8)
    nos = len(log["os"])
    c.call("random_state_init_from_random_state", ST2, ST)
    pool = {k: v for k, v in g.pool().items() if k not in g.given}
    g2 = Gen(c, ST2)
    g2.given = g.given
    g2.req("get_random_u64")
    ctx = g2.last_ctx()
    used = key_from(c, ctx, pool, "the derived generator")
    c.prove(X.eq(64, c.M.load(ctx + 48, 8), 0), "the block counter of a new key does not start at zero")
    g.given |= used
    for i in range(P.get("after", 3)):
        g.req("get_random_bytes", 100)
        g2.req("get_random_bytes", 90)
    c.reach("end")


def reseed(c):
    """a fresh key after at most 256 KiB of buffered output"""
    P = c.params
    log = taint(c)
    c.M.ghost["ksmode"] = 0
    c.call("random_state_init", ST)
    fn, n = P["fn"], P["n"]
    w = {"get_random_u16": 2, "get_random_u64": 8}.get(fn, n)
    out = 0
    fail = c.pick("os", 4)
    LIM = 256 * 1024
    for turn in range(P.get("turns", 2)):
        have = log["calls"]
        nos = len(log["os"])
        if turn == P.get("turns", 2) - 1:
            log["plan"] = [[], [("short", 5), ("err", 4)], [("err", 38)], [("zero",)]][fail]
        total = 0
        while log["calls"] == have:
            if total > LIM + 512:
                c.fail("more than 256 KiB of output from one key")
            ne = len(c.M.events)
            kind, r = c.attempt(fn, ST, *((OUT, n) if fn == "get_random_bytes" else ()))
            if kind == "fatal":
                if turn == P.get("turns", 2) - 1 and fail >= 2:
                    c.reach("fatal")
                    return
                c.fail("fatal error while drawing random bytes")
            if kind != "ret":
                c.fail("drawing random bytes: " + kind)
            # counted per generated buffer, as the keystream calls say
            total += sum(e[2] for e in c.M.events[ne:] if e[0] == "ks") if log["calls"] == have else 0
        if turn == P.get("turns", 2) - 1 and fail >= 2:
            c.fail("no seed could be obtained but the generator goes on")
        ctx = c.M.ghost["ksctx"]
        key_from(c, ctx, os_pool(log, nos), "the reseeded generator")
    c.reach("end")


# ------------------------------------------------------------------ generators of the running allocator
def generators(c):
    """after initialisation every generator in use has a key of its own that was obtained from the operating system or as the output of another one"""
    hm = c.hm
    keys = {}
    g = c.M.ghost

    def mode(M, k, n):
        ctx = M.conc(g["ksctx"])
        kk = tuple(ctx_key(c, ctx)) if ctx is not None else None
        if kk is None:
            c.fail("generator at an unknown address")
        o = keys.setdefault(ctx, [])
        if kk not in o:
            o.append(kk)
        return env.ks_words(k, (n + 7) // 8)
    g["ksmode"] = mode
    srcs = []
    for t in range(hm.narena + 1):
        c.thread(t)
        for cls in range(hm.nclass):
            if cls_ok(hm, cls):
                p = c.call("h_malloc", class_range(hm, cls)[1])
                c.call("h_free", p)
        p = c.call("h_malloc", 300000)
        c.call("h_free", p)
    seen = {}
    pool = b"".join(b"" for _ in ())
    outs = []
    for e in c.M.events:
        if e[0] == "getrandom":
            outs.append(bytes(e[5]))
        elif e[0] == "ks":
            outs.append(b"".join(v.to_bytes(8, "little") for v in e[3])[:e[2]])
    blob = b"|".join(outs)
    flat = b"".join(outs)
    for ctx, ks in keys.items():
        for k in ks:
            if any(isinstance(b, E) for b in k):
                c.fail("a key of unknown origin")
            kb = bytes(k)
            if kb in seen:
                c.fail("two generators have the same key")
            seen[kb] = ctx
            if kb[:32] not in flat and not all(kb[i:i + 4] in flat for i in range(0, 40, 4)):
                c.fail("a generator's key was neither obtained from the operating system nor drawn from another generator")
    if len(keys) < hm.narena * (hm.nclass - 1):
        c.fail("size classes share a generator")
    c.reach("end")


def cls_ok(hm, cls):
    return True


def tasks(tier, seed):
    T = tier == "thorough"
    r = []
    B = 60 if T else 20
    for i, (sym, lens) in enumerate(((("k", "n"), ((64, 64), (128,), (192, 5), (130, 64), (65,), (127, 1))), (("k", "n"), [(n,) for n in (range(1, 64) if T else (1, 2, 3, 4, 5, 8, 31, 32, 33, 47, 60, 62, 63))]))):
        r.append(Task("core/%d" % i, RC, core, dict(sym=sym, lens=lens), budget=B, boot=False, reach=["end"]))
    for i, ct in enumerate((((5, 0), (0xffffffff, 7), (0xfffffffe, 0xffffffff)))):
        r.append(Task("core-counter/%d" % i, RC, core, dict(sym=("k", "n"), lens=((64, 192), (130,)), counter=ct), budget=B, boot=False, reach=["end"]))
    r.append(Task("core-counter/any", RC, core, dict(sym=("k", "n", "c"), lens=((64, 128), (130,)), counter=(0, 0)), budget=B, boot=False, reach=["end"]))
    r.append(Task("seeding", D, seeding, {}, budget=B, boot=False, reach=["end", "fatal"]))
    sec = REQS if T else [REQS[i] for i in (0, 1, 3)]
    step = 16 if T else 32
    for lo in range(0, 257, step):
        r.append(Task("buffer/%d" % lo, D, buffer, dict(pos=(lo, min(lo + step, 257)), reqs=REQS, second=sec), budget=B, boot=False, reach=["end"]))
    for lo in range(0, 257, 64):
        r.append(Task("derived/%d" % lo, D, derived, dict(pos=(lo, min(lo + 64, 257))), budget=B, boot=False, reach=["end"]))
    for fn, n in (("get_random_u64", 0), ("get_random_bytes", 128), ("get_random_bytes", 100)) + ((("get_random_u16", 0), ("get_random_bytes", 7)) if T else ()):
        r.append(Task("reseed/%s/%d" % (fn, n), D, reseed, dict(fn=fn, n=n, turns=2 if T or n == 128 else 1), budget=3 * B, boot=False, reach=["end", "fatal"]))
    for cfg in (D, NQ) + ((NE,) if T else ()):
        r.append(Task("generators/" + cfg.name, cfg, generators, {}, budget=B, reach=["end"]))
    return r
