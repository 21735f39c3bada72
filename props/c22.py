from hmsym.explore import Stop
from hmsym.runner import Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from hmsym import env, solve as S, expr as X
from hmsym.expr import E
from hmsym.machine import USER_BASE, Violation

PROP = Prop("C22", bounds=["16-bit: every bound 0..65535 at once, every raw value, up to 2 rejected draws; each accepted raw value lies in its equally sized share of the range",
                           "64-bit: every bound at once, every raw value, up to 2 rejected draws; in addition bounds 1 to 64 (quick: a selection), powers of two and their neighbours, and values above 2^62, one by one",
                           "bound 0 gives 0 and does not fault"],
            assumptions=["raw values are independent and uniform (C21)", "a draw with many rejections in a row repeats the same step (the state is only the position in the generator)",
                         "an implementation that maps raw values differently from the multiply-shift method is judged by the complete histogram (16-bit) or by counting preimages with the solver (64-bit, bounds above 2^62)"])
ST = USER_BASE + 0x100


def offset(c, b):
    """position of a byte in the generated stream"""
    from props.c21 import source
    s = source(b)
    if s is None:
        c.fail("the next raw value is not a generated one")
    pos = 0
    for e in c.M.events:
        if e[0] == "ks":
            for v in e[3]:
                if v is s[0]:
                    return pos + s[1] // 8
                pos += 8
    c.fail("the next raw value is not a generated one")


def stream(c, o, n):
    """n generated bytes from position o on"""
    pos = 0
    for e in c.M.events:
        if e[0] == "ks":
            for v in e[3]:
                if pos <= o < pos + 8:
                    return X.extract(v, 8 * (o - pos) + 8 * n - 1, 8 * (o - pos))
                pos += 8


def histogram16(hm, n):
    """outputs of the real code for every raw value once"""
    M = hm.M
    seq = [0]

    def mode(M, k, nb):
        r = []
        for i in range((nb + 7) // 8):
            w = 0
            for j in range(4):
                if seq[0] < 65536:
                    w |= seq[0] << (16 * j)
                seq[0] += 1
            r.append(w)
        return r
    M.ghost["ksmode"] = mode
    cnt = {}
    draws = [0]
    hm.call0("random_state_init", ST)
    try:
        while True:
            v = hm.call0("get_random_u16_uniform", ST, n)
            left = 256 - 2 * 0
            # position: raw values consumed so far
            used = seq[0] - remaining(hm)
            if used > 65536:
                break
            cnt[v] = cnt.get(v, 0) + 1
            if used == 65536:
                break
    finally:
        M.ghost["ksmode"] = True
    return cnt


def remaining(hm):
    """raw values still in the buffer"""
    i = hm.M.val(hm.M.load(ST, 4))
    return (256 - i) // 2


def biased16(c, n):
    if n < 1:
        return True
    old = c.M.snap()
    try:
        c.M.restore(c.params["snap0"] if "snap0" in c.params else old)
        h = histogram16(c.hm, n)
    finally:
        c.M.restore(old)
    return set(h) != set(range(n)) or len(set(h.values())) != 1


def uniform16(c):
    P = c.params
    M = c.M
    M.ghost["ksmode"] = True
    n = P.get("n")
    if n is None:
        n = c.var("n", 16)
        c.assume(X.ne(16, n, 0))
    elif isinstance(n, tuple):
        n = n[c.pick("n", len(n))]
    c.info.update(bound=n)
    judge(c, 16, n, "get_random_u16_uniform", "get_random_u16")


def urem_full(w, n):
    """2^w mod n"""
    if isinstance(n, int):
        return (1 << w) % n
    return X.urem(w, X.sub(w, 0, n), n)


def judge(c, w, n, fn, raw):
    P = c.params
    M = c.M
    c.call("random_state_init", ST)
    v = c.call(fn, ST, n)
    nxt = c.call(raw, ST)
    o = offset(c, X.extract(nxt, 7, 0) if isinstance(nxt, E) else nxt)
    k = o // (w // 8) - 1
    if k < 0 or o % (w // 8):
        c.fail("raw values are not drawn one after the other")
    c.reach("draws:%d" % (k + 1))
    lim = urem_full(w, n)
    raws = []
    for j in range(k + 1):
        r = stream(c, j * w // 8, w // 8)
        m = X.mul(2 * w, X.zext(2 * w, r), X.zext(2 * w, n) if isinstance(n, E) else n)
        low, high = X.trunc(w, m), X.extract(m, 2 * w - 1, w) if isinstance(m, E) else m >> w
        if j < k:
            q, msg = X.ult(w, low, lim), "a raw value is rejected although all values stay equally likely with it"
        else:
            q, msg = X.not_(X.ult(w, low, lim)), "some values are more likely than others"
        check(c, q, msg, w, n, prev=raws)
        raws.append(r)
        if j == k:
            if X.eq(w, v, high) != 1 and (not isinstance(n, E) or not c.must(X.eq(w, v, high))):
                # (the upper half of a product with a factor below 2^w is below the other factor)
                check(c, X.ult(w, v, n), "a random value is not below the bound", w, n, True)
            check(c, X.eq(w, v, high), "the value differs from the share of its raw value", w, n, prev=raws[:-1])
    c.reach("end")


def check(c, q, msg, w, n, always=False, prev=()):
    """obligation; a disagreement with the multiply-shift method is a violation if the values are not uniform"""
    try:
        c.prove(q, msg)
    except Violation as v:
        if always:
            raise
        nn = X.ev(n, v.model) if isinstance(n, E) else n
        c.M.model.update(v.model)
        for cand in (nn, 3, 5, 641, 40000, 65535):
            if w == 16 and biased16(c, cand):
                if cand != nn:
                    c.info.update(bound=cand)
                raise
        if w == 64 and biased64(c, nn, [X.ev(x, v.model) for x in prev]):
            raise
        c.reach("end")
        c.M.inconclusive.append("other method: " + msg)
        raise Stop()


def rejected(c, b, k):
    """k raw values for the bound b that the real code rejects one after the other"""
    prev = []
    for i in range(k):
        acc, _ = single(c, b, prev)
        res, md = S.check([X.not_(acc)], 20)
        if res != S.SAT:
            return None
        prev = prev + [md.get(RAW, 0)]
    return prev


def biased64(c, n, prev):
    """decided on the real code for the concrete bound n (the raw values prev having been rejected before) and, failing that, for large bounds"""
    for b in [n] + [(1 << 63) + (1 << 61) + 12345, (3 << 62) + 7, (1 << 63) + 1]:
        if b != n:
            prev = rejected(c, b, len(prev))
            if prev is None:
                continue
        acc, val = single(c, b, prev)
        r = RAW
        m = X.mul(128, X.zext(128, r), b)
        low, high = X.trunc(64, m), X.extract(m, 127, 64)
        lemire = X.not_(X.ult(64, low, (1 << 64) % b))
        # accepts everything the multiply-shift method does, with the same value, and something more
        a = S.check([lemire, X.not_(X.and_(1, acc, X.eq(64, val, high)))], 20)[0]
        if a == S.UNSAT and S.check([X.not_(lemire), acc], 20)[0] == S.SAT:
            return True
        if b > 1 << 61:
            counts = set()
            for t in (0, 1, 2, b // 3, b // 2, b - 2, b - 1, 0x123456789abcdef, b // 5 * 3, b // 7):
                k = 0
                cs = [acc, X.eq(64, val, t)]
                while k < 12:
                    res, md = S.check(cs, 20)
                    if res != S.SAT:
                        break
                    k += 1
                    cs.append(X.ne(64, r, md.get(r, 0)))
                if res == S.UNKNOWN:
                    break
                counts.add(k)
            if len(counts) > 1:
                return True
    return False


RAW = X.var("rawvalue:64", 64)


def single(c, b, prev):
    """(accepted at once, value) of the real code as expressions over the raw value RAW, for the concrete bound b"""
    hm, M = c.hm, c.M
    old = M.snap()
    sv = (M.pc, M.prefix, M.model, M.trace, M.proved, M.work)
    acc, val = 0, 0
    work = [([], {})]
    try:
        while work:
            p, md = work.pop()
            M.restore(old)
            M.pc, M.prefix, M.model, M.trace, M.proved, M.work = [], p, md, [], {}, work
            n = [0]

            def mode(M, k, nb):
                return list(prev) + [RAW] + [(1 << 63) + 1] * ((nb + 7) // 8 - 1 - len(prev))
            M.ghost["ksmode"] = mode
            try:
                hm.call0("random_state_init", ST)
                v = hm.call0("get_random_u64_uniform", ST, b)
                i = M.val(M.load(ST, 4))
            except Exception as e:
                if type(e).__name__ in ("PathEnd", "Unsupported", "Hang"):
                    continue
                raise
            if i == 8 * (len(prev) + 1):
                cnd = 1
                for x in M.pc:
                    cnd = X.and_(1, cnd, x)
                acc = X.or_(1, acc, cnd)
                val = X.ite(64, cnd, v, val)
        return acc, val
    finally:
        M.restore(old)
        M.pc, M.prefix, M.model, M.trace, M.proved, M.work = sv
        M.ghost["ksmode"] = True


def uniform64(c):
    P = c.params
    M = c.M
    M.ghost["ksmode"] = True
    n = P.get("n")
    if n is None:
        n = c.var("n", 64)
        c.assume(X.ne(64, n, 0))
    elif isinstance(n, tuple):
        n = n[c.pick("n", len(n))]
    c.info.update(bound=n)
    judge(c, 64, n, "get_random_u64_uniform", "get_random_u64")


def zero(c):
    """bound 0: one possibility"""
    c.M.ghost["ksmode"] = True
    c.call("random_state_init", ST)
    w, fn = ((16, "get_random_u16_uniform"), (64, "get_random_u64_uniform"))[c.pick("w", 2)]
    for i in range(3):
        v = c.call(fn, ST, 0)
        c.prove(X.eq(w, v, 0), "bound 0 gives something else than 0")
    c.ok_kernel()
    c.reach("end")


def tasks(tier, seed):
    T = tier == "thorough"
    r = []
    B = 120 if T else 30
    tags = ["draws:1", "draws:2", "end"]
    r.append(Task("16/all", D, uniform16, dict(fast=False), budget=B, boot=False, reach=tags))
    hm = D.hm()
    used = sorted({s for s in hm.slots if s > 0} | {32, 1, 2, 3, 5, 7, 255, 257, 1000, 4096, 8192, 16384, 21845, 32767, 32768, 32769, 43690, 43691, 49151, 65521, 65534, 65535})
    r.append(Task("16/used", D, uniform16, dict(fast=False, n=tuple(used)), budget=B, boot=False, reach=tags))
    r.append(Task("64/all", D, uniform64, dict(fast=False), budget=B, boot=False, reach=["end"]))
    small = tuple(range(1, 65)) if T else (1, 2, 3, 5, 7, 10, 32, 33, 64)
    big = [x for k in (16, 17, 23, 31, 32, 33, 47, 62, 63) for x in ((1 << k) - 1, 1 << k, (1 << k) + 1)] + [(3 << 62) + 7, (1 << 64) - 1, (1 << 64) - 59, 16777216, 12 << 60]
    r.append(Task("64/small", D, uniform64, dict(fast=False, n=small), budget=B, boot=False, reach=["end"]))
    r.append(Task("64/big", D, uniform64, dict(fast=False, n=tuple(big)), budget=B, boot=False, reach=["draws:2", "end"]))
    r.append(Task("zero", D, zero, dict(fast=False), budget=B, boot=False, reach=["end"]))
    return r
