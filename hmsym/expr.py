"""Bit-vector expressions with constant folding, hash-consing, unsigned ranges and known-zero bits.

A value is a Python int (concrete) or an E node (symbolic).  Width-1 values are booleans."""
import sys
sys.setrecursionlimit(100000)


class E:
    __slots__ = ("op", "w", "a", "id", "lo", "hi", "kz", "z", "vs")

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]
MASK = [(1 << i) - 1 for i in range(0, 4097)]


def mask(w):
    return MASK[w] if w <= 4096 else (1 << w) - 1


def show(e, d=0):
    if not isinstance(e, E):
        return hex(e)
    if e.op == "var":
        return e.a[0]
    if d > 6:
        return "..."
    return "(%s:%d %s)" % (e.op, e.w, " ".join(show(x, d + 1) if isinstance(x, E) else (hex(x) if isinstance(x, int) else str(x)) for x in e.a))


def mk(op, w, a, lo=0, hi=None, kz=0):
    k = (op, w, a)
    e = _tab.get(k)
    if e is not None:
        return e
    e = E()
    e.op = op
    e.w = w
    e.a = a
    _n[0] += 1
    e.id = _n[0]
    m = MASK[w]
    if hi is None:
        hi = m
    # known zeros above the top bit of hi
    kz |= m & ~MASK[hi.bit_length()]
    ub = m & ~kz
    if hi > ub:
        hi = ub
    if kz & 1:
        t = ~kz & (kz + 1)
        if t:
            lo = (lo + t - 1) & -t
            hi &= -t
    if lo == hi:
        _tab[k] = lo
        return lo
    e.lo = lo
    e.hi = hi
    e.kz = kz
    e.z = None
    e.vs = None
    _tab[k] = e
    return e


def var(name, w, lo=0, hi=None):
    """variable; a bound hi is part of its name, and whoever creates it also puts le(v, hi) on the path"""
    if hi is not None and hi < MASK[w]:
        return mk("var", w, ("%s<%x" % (name, hi),), 0, hi)
    return mk("var", w, (name,), 0, None)


def bound(v):
    """the range constraint of a bounded variable as an unsimplified node"""
    if isinstance(v, E) and v.hi < MASK[v.w]:
        return mk("ule", 1, (v.w, v, v.hi))
    return 1


def lo_(a):
    return a.lo if isinstance(a, E) else a


def hi_(a):
    return a.hi if isinstance(a, E) else a


def kz_(a, w):
    return a.kz if isinstance(a, E) else (~a & MASK[w])


def tz_(a, w):
    """number of low bits known to be zero"""
    k = kz_(a, w)
    n = 0
    while n < w and (k >> n) & 1:
        n += 1
    return n


def isc(a):
    return not isinstance(a, E)


def varsof(e):
    if not isinstance(e, E):
        return frozenset()
    if e.vs is not None:
        return e.vs
    if e.op == "var":
        e.vs = frozenset((e,))
        return e.vs
    s = frozenset()
    stack = []
    for x in e.a:
        if isinstance(x, E):
            v = varsof(x)
            if not s:
                s = v
            elif v is not s and not v <= s:
                s = s | v
    e.vs = s
    return s


# ---------------------------------------------------------------- arithmetic
def add(w, a, b):
    if not isinstance(a, E):
        if not isinstance(b, E):
            return (a + b) & MASK[w]
        a, b = b, a
    m = MASK[w]
    if not isinstance(b, E):
        if b == 0:
            return a
        if w == 1:
            return xor(1, a, b)
        if a.op == "add" and not isinstance(a.a[1], E):
            return add(w, a.a[0], (a.a[1] + b) & m)
        if a.op == "ite" and not isinstance(a.a[1], E) and not isinstance(a.a[2], E):
            return ite(w, a.a[0], (a.a[1] + b) & m, (a.a[2] + b) & m)
    else:
        if w == 1:
            return xor(1, a, b)
        # pull constants outward
        if a.op == "add" and not isinstance(a.a[1], E):
            return add(w, add(w, a.a[0], b), a.a[1])
        if b.op == "add" and not isinstance(b.a[1], E):
            return add(w, add(w, a, b.a[0]), b.a[1])
        # x + (y - x) -> y ; x + (0 - y)
        if b.op == "sub" and b.a[1] is a:
            return b.a[0]
        if a.op == "sub" and a.a[1] is b:
            return a.a[0]
        if a.id > b.id:
            a, b = b, a
    la, ha, lb, hb = lo_(a), hi_(a), lo_(b), hi_(b)
    if ha + hb <= m:
        lo, hi = la + lb, ha + hb
    elif la + lb > m:
        lo, hi = la + lb - m - 1, ha + hb - m - 1
    else:
        lo, hi = 0, m
    t = min(tz_(a, w), tz_(b, w))
    return mk("add", w, (a, b), lo, hi, MASK[t])


def neg(w, a):
    return sub(w, 0, a)


def sub(w, a, b):
    m = MASK[w]
    if not isinstance(b, E):
        return add(w, a, (-b) & m)
    if a is b:
        return 0
    if w == 1:
        return xor(1, a, b)
    if isinstance(a, E):
        if a.op == "add":
            if a.a[0] is b:
                return a.a[1]
            if a.a[1] is b:
                return a.a[0]
        if b.op == "add" and not isinstance(b.a[1], E):
            return add(w, sub(w, a, b.a[0]), (-b.a[1]) & m)
        if a.op == "add" and not isinstance(a.a[1], E):
            return add(w, sub(w, a.a[0], b), a.a[1])
        if b.op == "add" and b.a[0] is a:
            return neg(w, b.a[1])
        if b.op == "add" and b.a[1] is a:
            return neg(w, b.a[0])
    else:
        if b.op == "add" and not isinstance(b.a[1], E):
            return sub(w, (a - b.a[1]) & m, b.a[0])
    la, ha, lb, hb = lo_(a), hi_(a), lo_(b), hi_(b)
    if la >= hb:
        lo, hi = la - hb, ha - lb
    elif ha < lb:
        lo, hi = la - hb + m + 1, ha - lb + m + 1
    else:
        lo, hi = 0, m
    t = min(tz_(a, w), tz_(b, w))
    return mk("sub", w, (a, b), lo, hi, MASK[t])


def mul(w, a, b):
    if not isinstance(a, E):
        if not isinstance(b, E):
            return (a * b) & MASK[w]
        a, b = b, a
    m = MASK[w]
    if not isinstance(b, E):
        if b == 0:
            return 0
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return shl(w, a, b.bit_length() - 1)
        if a.op == "mul" and not isinstance(a.a[1], E):
            return mul(w, a.a[0], (a.a[1] * b) & m)
        if a.op == "ite" and not isinstance(a.a[1], E) and not isinstance(a.a[2], E):
            return ite(w, a.a[0], (a.a[1] * b) & m, (a.a[2] * b) & m)
    elif a.id > b.id:
        a, b = b, a
    la, ha, lb, hb = lo_(a), hi_(a), lo_(b), hi_(b)
    lo, hi = (la * lb, ha * hb) if ha * hb <= m else (0, m)
    t = min(w, tz_(a, w) + tz_(b, w))
    return mk("mul", w, (a, b), lo, hi, MASK[t])


def udiv(w, a, b):
    if not isinstance(b, E):
        if b == 0:
            return MASK[w]
        if not isinstance(a, E):
            return a // b
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return lshr(w, a, b.bit_length() - 1)
        if a.hi < b:
            return 0
        x, k = (a.a[0], a.a[1]) if a.op == "add" and not isinstance(a.a[1], E) and hi_(a.a[0]) + a.a[1] <= MASK[w] else (a, 0)
        if x.op == "mul" and not isinstance(x.a[1], E) and x.a[1] % b == 0 and hi_(x.a[0]) * x.a[1] <= MASK[w]:
            return add(w, mul(w, x.a[0], x.a[1] // b), k // b)
        return mk("udiv", w, (a, b), a.lo // b, a.hi // b)
    return mk("udiv", w, (a, b), 0, MASK[w] if lo_(b) == 0 else hi_(a))


def urem(w, a, b):
    if not isinstance(b, E):
        if b == 0:
            return a
        if not isinstance(a, E):
            return a % b
        if b & (b - 1) == 0:
            return and_(w, a, b - 1)
        if a.hi < b:
            return a
        return mk("urem", w, (a, b), 0, min(b - 1, a.hi))
    return mk("urem", w, (a, b), 0, hi_(a))


def _s(w, v):
    return v - (1 << w) if v >> (w - 1) else v


def sdiv(w, a, b):
    if not isinstance(a, E) and not isinstance(b, E):
        if b == 0:
            return MASK[w] if _s(w, a) >= 0 else 1
        x, y = _s(w, a), _s(w, b)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & MASK[w]
    if hi_(a) >> (w - 1) == 0 and hi_(b) >> (w - 1) == 0 and lo_(b) > 0:
        return udiv(w, a, b)
    return mk("sdiv", w, (a, b))


def srem(w, a, b):
    if not isinstance(a, E) and not isinstance(b, E):
        if b == 0:
            return a
        x, y = _s(w, a), _s(w, b)
        r = abs(x) % abs(y)
        return (r if x >= 0 else -r) & MASK[w]
    if hi_(a) >> (w - 1) == 0 and hi_(b) >> (w - 1) == 0 and lo_(b) > 0:
        return urem(w, a, b)
    return mk("srem", w, (a, b))


# ---------------------------------------------------------------- bitwise
def and_(w, a, b):
    if not isinstance(a, E):
        if not isinstance(b, E):
            return a & b
        a, b = b, a
    m = MASK[w]
    if not isinstance(b, E):
        if b == 0:
            return 0
        # bits of the mask that matter
        if (~b & m) & ~a.kz == 0:
            return a
        if b & ~a.kz == 0:
            return 0
        if a.op == "and" and not isinstance(a.a[1], E):
            return and_(w, a.a[0], a.a[1] & b)
        if a.op == "ite" and not isinstance(a.a[1], E) and not isinstance(a.a[2], E):
            return ite(w, a.a[0], a.a[1] & b, a.a[2] & b)
        # low mask: zext(extract)
        if b & (b + 1) == 0 and w > 1:
            n = b.bit_length()
            return zext(w, extract(a, n - 1, 0))
        # drop addends / or-parts that the mask removes
        if a.op == "or":
            x, y = a.a
            if isinstance(x, E) and b & ~x.kz == 0:
                return and_(w, y, b)
            if isinstance(y, E):
                if b & ~y.kz == 0:
                    return and_(w, x, b)
            elif b & y == 0:
                return and_(w, x, b)
        p = MASK[(a.lo ^ a.hi).bit_length()]
        top = a.lo & ~p & b
        return mk("and", w, (a, b), top, min(a.hi, top | (p & b & ~a.kz)), a.kz | (~b & m) | (~a.lo & ~p & m))
    if a is b:
        return a
    if w == 1:
        if a.op == "xor" and a.a[0] is b and a.a[1] == 1 or b.op == "xor" and b.a[0] is a and b.a[1] == 1:
            return 0
    if a.id > b.id:
        a, b = b, a
    return mk("and", w, (a, b), 0, min(a.hi, b.hi), a.kz | b.kz)


def or_(w, a, b):
    if not isinstance(a, E):
        if not isinstance(b, E):
            return a | b
        a, b = b, a
    m = MASK[w]
    if not isinstance(b, E):
        if b == 0:
            return a
        if b == m:
            return m
        if a.op == "or" and not isinstance(a.a[1], E):
            return or_(w, a.a[0], a.a[1] | b)
        if a.op == "ite" and not isinstance(a.a[1], E) and not isinstance(a.a[2], E):
            return ite(w, a.a[0], a.a[1] | b, a.a[2] | b)
        return mk("or", w, (a, b), max(a.lo, b), MASK[max(a.hi.bit_length(), b.bit_length())], a.kz & ~b)
    if a is b:
        return a
    if w == 1:
        if a.op == "xor" and a.a[0] is b and a.a[1] == 1 or b.op == "xor" and b.a[0] is a and b.a[1] == 1:
            return 1
    # disjoint halves that form a concat
    if w > 1:
        t = _orcat(w, a, b)
        if t is not None:
            return t
    if a.id > b.id:
        a, b = b, a
    return mk("or", w, (a, b), max(a.lo, b.lo), MASK[max(a.hi.bit_length(), b.hi.bit_length())], a.kz & b.kz)


def _orcat(w, a, b):
    """a|b where one is (x << k) and the other fits in k bits: build a concat"""
    for x, y in ((a, b), (b, a)):
        k = tz_(x, w)
        if k and k < w and y.hi < (1 << k):
            return concat(extract(x, w - 1, k), w - k, extract(y, k - 1, 0), k)
    return None


def xor(w, a, b):
    if not isinstance(a, E):
        if not isinstance(b, E):
            return a ^ b
        a, b = b, a
    if not isinstance(b, E):
        if b == 0:
            return a
        if a.op == "xor" and not isinstance(a.a[1], E):
            return xor(w, a.a[0], a.a[1] ^ b)
        if w == 1:
            if a.op == "ult":
                return ule(a.a[0], a.a[2], a.a[1])
            if a.op == "ule":
                return ult(a.a[0], a.a[2], a.a[1])
            if a.op == "slt":
                return sle(a.a[0], a.a[2], a.a[1])
            if a.op == "sle":
                return slt(a.a[0], a.a[2], a.a[1])
        if a.op == "ite" and not isinstance(a.a[1], E) and not isinstance(a.a[2], E):
            return ite(w, a.a[0], a.a[1] ^ b, a.a[2] ^ b)
        return mk("xor", w, (a, b), 0, MASK[max(a.hi.bit_length(), b.bit_length())], a.kz & ~b)
    if a is b:
        return 0
    if a.id > b.id:
        a, b = b, a
    return mk("xor", w, (a, b), 0, MASK[max(a.hi.bit_length(), b.hi.bit_length())], a.kz & b.kz)


def not_(a):
    return xor(1, a, 1)


def band(*xs):
    r = 1
    for x in xs:
        r = and_(1, r, x)
    return r


def bor(*xs):
    r = 0
    for x in xs:
        r = or_(1, r, x)
    return r


def implies(a, b):
    return or_(1, not_(a), b)


def shl(w, a, b):
    m = MASK[w]
    if not isinstance(b, E):
        if b >= w:
            return 0
        if not isinstance(a, E):
            return (a << b) & m
        if b == 0:
            return a
        if a.op == "shl" and not isinstance(a.a[1], E):
            return shl(w, a.a[0], min(w, a.a[1] + b))
        lo, hi = (a.lo << b, a.hi << b) if (a.hi << b) <= m else (0, m)
        return mk("shl", w, (a, b), lo, hi, ((a.kz << b) | MASK[b]) & m)
    if not isinstance(a, E) and a == 0:
        return 0
    t = tz_(a, w)
    return mk("shl", w, (a, b), 0, m, MASK[t])


def lshr(w, a, b):
    if not isinstance(b, E):
        if b >= w:
            return 0
        if not isinstance(a, E):
            return a >> b
        if b == 0:
            return a
        if a.hi >> b == 0:
            return 0
        return zext(w, extract(a, w - 1, b))
    if not isinstance(a, E) and a == 0:
        return 0
    return mk("lshr", w, (a, b), 0, hi_(a))


def ashr(w, a, b):
    if not isinstance(b, E):
        b = min(b, w - 1)
        if not isinstance(a, E):
            return (_s(w, a) >> b) & MASK[w]
        if a.hi < 1 << (w - 1):
            return lshr(w, a, b)
    return mk("ashr", w, (a, b))


def fshl(w, a, b, c):
    """funnel shift left, constant amount"""
    if isinstance(c, E):
        c = urem(w, c, w)
        return or_(w, shl(w, a, c), lshr(w, b, sub(w, w, c)))
    c %= w
    if c == 0:
        return a
    if not isinstance(a, E) and not isinstance(b, E):
        return ((a << c) | (b >> (w - c))) & MASK[w]
    return concat(extract(a, w - c - 1, 0), w - c, extract(b, w - 1, w - c), c)


# ---------------------------------------------------------------- comparison
def eq(w, a, b):
    if not isinstance(a, E):
        if not isinstance(b, E):
            return 1 if a == b else 0
        a, b = b, a
    if a is b:
        return 1
    m = MASK[w]
    if not isinstance(b, E):
        if b < a.lo or b > a.hi or b & a.kz:
            return 0
        if w == 1:
            return a if b else xor(1, a, 1)
        op = a.op
        if op == "add" and not isinstance(a.a[1], E):
            return eq(w, a.a[0], (b - a.a[1]) & m)
        if op == "xor" and not isinstance(a.a[1], E):
            return eq(w, a.a[0], b ^ a.a[1])
        if op == "sub" and not isinstance(a.a[0], E):
            return eq(w, a.a[1], (a.a[0] - b) & m)
        if op == "sub" and b == 0:
            return eq(w, a.a[0], a.a[1])
        if op == "xor" and b == 0:
            return eq(w, a.a[0], a.a[1])
        if op == "zext":
            return eq(a.a[0].w, a.a[0], b)
        if op == "concat":
            x, y = a.a
            wy = y.w if isinstance(y, E) else w - x.w
            return and_(1, eq(w - wy, x, b >> wy), eq(wy, y, b & MASK[wy]))
        if op == "ite":
            c, x, y = a.a
            if not isinstance(x, E) or not isinstance(y, E):
                return ite(1, c, eq(w, x, b), eq(w, y, b))
        if op == "shl" and not isinstance(a.a[1], E):
            k = a.a[1]
            return eq(w - k, extract(a.a[0], w - k - 1, 0), b >> k)
        if op == "mul" and not isinstance(a.a[1], E) and hi_(a.a[0]) * a.a[1] <= m:
            return eq(w, a.a[0], b // a.a[1]) if b % a.a[1] == 0 else 0
        if op == "or" and b == 0:
            return and_(1, eq(w, a.a[0], 0), eq(w, a.a[1], 0))
        return mk("eq", 1, (w, a, b))
    if a.hi < b.lo or b.hi < a.lo:
        return 0
    if a.op == "add" and b.op == "add":
        for i in (0, 1):
            for j in (0, 1):
                if a.a[i] is b.a[j]:
                    return eq(w, a.a[1 - i], b.a[1 - j])
        if not isinstance(a.a[1], E) and not isinstance(b.a[1], E):
            return eq(w, add(w, a.a[0], (a.a[1] - b.a[1]) & m), b.a[0])
    if a.op == "add" and (a.a[0] is b or a.a[1] is b):
        return eq(w, a.a[1] if a.a[0] is b else a.a[0], 0)
    if b.op == "add" and (b.a[0] is a or b.a[1] is a):
        return eq(w, b.a[1] if b.a[0] is a else b.a[0], 0)
    if a.op == "zext" and b.op == "zext" and a.a[0].w == b.a[0].w:
        return eq(a.a[0].w, a.a[0], b.a[0])
    if w == 1:
        return xor(1, xor(1, a, b), 1)
    if a.id > b.id:
        a, b = b, a
    return mk("eq", 1, (w, a, b))


def ne(w, a, b):
    return not_(eq(w, a, b))


def ult(w, a, b):
    if not isinstance(a, E) and not isinstance(b, E):
        return 1 if a < b else 0
    if a is b:
        return 0
    if hi_(a) < lo_(b):
        return 1
    if lo_(a) >= hi_(b):
        return 0
    if not isinstance(b, E) and b == 1:
        return eq(w, a, 0)
    if not isinstance(a, E) and a == 0:
        return ne(w, b, 0)
    if w == 1:
        return and_(1, not_(a), b)
    if isinstance(a, E) and a.op == "zext" and not isinstance(b, E):
        return ult(a.a[0].w, a.a[0], b)
    if isinstance(b, E) and b.op == "zext" and not isinstance(a, E):
        return ult(b.a[0].w, a, b.a[0])
    # x + c < y + c without wrap
    if isinstance(a, E) and a.op == "add" and not isinstance(a.a[1], E) and not isinstance(b, E) and hi_(a.a[0]) + a.a[1] <= MASK[w] and b >= a.a[1]:
        return ult(w, a.a[0], b - a.a[1])
    if isinstance(b, E) and b.op == "add" and not isinstance(b.a[1], E) and not isinstance(a, E) and hi_(b.a[0]) + b.a[1] <= MASK[w] and a >= b.a[1]:
        return ult(w, a - b.a[1], b.a[0])
    return mk("ult", 1, (w, a, b))


def ule(w, a, b):
    if not isinstance(a, E) and not isinstance(b, E):
        return 1 if a <= b else 0
    if a is b:
        return 1
    if hi_(a) <= lo_(b):
        return 1
    if lo_(a) > hi_(b):
        return 0
    if not isinstance(b, E):
        return ult(w, a, b + 1)
    if not isinstance(a, E):
        return ult(w, a - 1, b)
    if w == 1:
        return or_(1, not_(a), b)
    return mk("ule", 1, (w, a, b))


def ugt(w, a, b):
    return ult(w, b, a)


def uge(w, a, b):
    return ule(w, b, a)


def slt(w, a, b):
    if not isinstance(a, E) and not isinstance(b, E):
        return 1 if _s(w, a) < _s(w, b) else 0
    if a is b:
        return 0
    if w == 1:
        return and_(1, a, not_(b))
    h = 1 << (w - 1)
    if hi_(a) < h and hi_(b) < h:
        return ult(w, a, b)
    if not isinstance(b, E) and b == 0:
        return eq(1, extract(a, w - 1, w - 1), 1)
    return mk("slt", 1, (w, a, b))


def sle(w, a, b):
    if not isinstance(a, E) and not isinstance(b, E):
        return 1 if _s(w, a) <= _s(w, b) else 0
    if a is b:
        return 1
    if w == 1:
        return or_(1, a, not_(b))
    h = 1 << (w - 1)
    if hi_(a) < h and hi_(b) < h:
        return ule(w, a, b)
    return mk("sle", 1, (w, a, b))


# ---------------------------------------------------------------- structure
def ite(w, c, a, b):
    if not isinstance(c, E):
        return a if c else b
    if a is b:
        return a
    ca, cb = not isinstance(a, E), not isinstance(b, E)
    if ca and cb and a == b:
        return a
    if w == 1:
        if ca:
            return or_(1, c, b) if a else and_(1, not_(c), b)
        if cb:
            return or_(1, not_(c), a) if b else and_(1, c, a)
    if c.op == "xor" and not isinstance(c.a[1], E):
        return ite(w, c.a[0], b, a)
    if not ca and a.op == "ite" and a.a[0] is c:
        a = a.a[1]
        return ite(w, c, a, b)
    if not cb and b.op == "ite" and b.a[0] is c:
        b = b.a[2]
        return ite(w, c, a, b)
    return mk("ite", w, (c, a, b), min(lo_(a), lo_(b)), max(hi_(a), hi_(b)), kz_(a, w) & kz_(b, w))


def zext(w, a):
    if not isinstance(a, E) or a.w == w:
        return a
    if a.op == "zext":
        a = a.a[0]
    if a.op == "extract" and a.a[2] == 0 and a.a[0].w == w and a.a[0].hi <= MASK[a.w]:
        return a.a[0]
    if a.op == "ite" and not isinstance(a.a[1], E) and not isinstance(a.a[2], E):
        return ite(w, a.a[0], a.a[1], a.a[2])
    return mk("zext", w, (a,), a.lo, a.hi, a.kz | (MASK[w] & ~MASK[a.w]))


def sext(w, a, fw):
    if not isinstance(a, E):
        return _s(fw, a) & MASK[w]
    if fw == w:
        return a
    if a.hi < 1 << (fw - 1):
        return zext(w, a)
    if fw == 1:
        return ite(w, a, MASK[w], 0)
    return mk("sext", w, (a,))


def trunc(w, a):
    if not isinstance(a, E):
        return a & MASK[w]
    return extract(a, w - 1, 0)


WHOLE = False     # keep word-level sums and exclusive ors whole when parts of them are taken


def extract(a, hi, lo):
    w = hi - lo + 1
    if not isinstance(a, E):
        return (a >> lo) & MASK[w]
    if lo == 0 and w == a.w:
        return a
    # all requested bits known zero?
    if (MASK[w] << lo) & ~a.kz == 0:
        return 0
    op = a.op
    if op == "extract":
        return extract(a.a[0], hi + a.a[2], lo + a.a[2])
    if op == "concat":
        x, y = a.a
        wy = y.w if isinstance(y, E) else a.w - x.w
        if hi < wy:
            return extract(y, hi, lo)
        if lo >= wy:
            return extract(x, hi - wy, lo - wy)
        return concat(extract(x, hi - wy, 0), hi - wy + 1, extract(y, wy - 1, lo), wy - lo)
    if op == "zext":
        x = a.a[0]
        if lo >= x.w:
            return 0
        if hi < x.w:
            return extract(x, hi, lo)
        return zext(w, extract(x, x.w - 1, lo))
    if op == "sext" and hi < a.a[0].w:
        return extract(a.a[0], hi, lo)
    if op == "ite" and (not isinstance(a.a[1], E) or not isinstance(a.a[2], E)):
        return ite(w, a.a[0], extract(a.a[1], hi, lo), extract(a.a[2], hi, lo))
    if op in ("and", "or", "xor"):
        x, y = a.a
        if not isinstance(y, E):
            f = {"and": and_, "or": or_, "xor": xor}[op]
            return f(w, extract(x, hi, lo), (y >> lo) & MASK[w])
        if op != "and" and not WHOLE:
            f = {"or": or_, "xor": xor}[op]
            return f(w, extract(x, hi, lo), extract(y, hi, lo))
    if op == "shl" and not isinstance(a.a[1], E):
        k = a.a[1]
        if lo >= k:
            return extract(a.a[0], hi - k, lo - k)
        if hi < k:
            return 0
        return shl(w, zext(w, extract(a.a[0], hi - k, 0)), k - lo) if lo < k and hi - k + 1 < w else shl(w, extract(a.a[0], hi - k + 0, 0), k - lo)
    if lo == 0 and op in ("add", "sub", "mul") and not WHOLE:
        f = {"add": add, "sub": sub, "mul": mul}[op]
        return f(w, trunc(w, a.a[0]), trunc(w, a.a[1]))
    l, h = 0, None
    if a.hi >> lo <= MASK[w]:
        l, h = a.lo >> lo, a.hi >> lo
    return mk("extract", w, (a, hi, lo), l, h, (a.kz >> lo) & MASK[w])


def concat(a, wa, b, wb):
    """a is the high part"""
    if wa <= 0:
        return b
    if wb <= 0:
        return a
    w = wa + wb
    if not isinstance(a, E):
        if not isinstance(b, E):
            return (a << wb) | b
        if a == 0:
            return zext(w, b)
    if isinstance(a, E) and isinstance(b, E):
        if a.op == "extract" and b.op == "extract" and a.a[0] is b.a[0] and a.a[2] == b.a[1] + 1:
            return extract(a.a[0], a.a[1], b.a[2])
        if a.op == "extract" and a.a[2] == b.w and a.a[0] is b:
            pass
        if b.op == "concat":
            x, y = b.a
            wy = y.w if isinstance(y, E) else b.w - x.w
            if isinstance(x, E) and a.op == "extract" and x.op == "extract" and a.a[0] is x.a[0] and a.a[2] == x.a[1] + 1:
                return concat(extract(a.a[0], a.a[1], x.a[2]), w - wy, y, wy)
        if a.op == "zext" and b.op == "extract" and isinstance(a.a[0], E) and a.a[0].op == "extract" and a.a[0].a[0] is b.a[0] and a.a[0].a[2] == b.a[1] + 1:
            return zext(w, extract(b.a[0], a.a[0].a[1], b.a[2]))
        if a.op == "ite" and b.op == "ite" and a.a[0] is b.a[0]:
            return ite(w, a.a[0], concat(a.a[1], wa, b.a[1], wb), concat(a.a[2], wa, b.a[2], wb))
    lo = (lo_(a) << wb) | lo_(b)
    hi = (hi_(a) << wb) | hi_(b)
    return mk("concat", w, (a, b) if True else None, lo, hi, (kz_(a, wa) << wb) | kz_(b, wb))


def cttz(w, a):
    if not isinstance(a, E):
        return w if a == 0 else (a & -a).bit_length() - 1
    return mk("cttz", w, (a,), 0, w if a.lo == 0 else w - 1)


def ctlz(w, a):
    if not isinstance(a, E):
        return w - a.bit_length()
    return mk("ctlz", w, (a,), w - a.hi.bit_length(), w - a.lo.bit_length())


def ctpop(w, a):
    if not isinstance(a, E):
        return bin(a).count("1")
    return mk("ctpop", w, (a,), 0, w)


def bswap(w, a):
    n = w // 8
    r = extract(a, 7, 0)
    wr = 8
    for i in range(1, n):
        r = concat(r, wr, extract(a, 8 * i + 7, 8 * i), 8)
        wr += 8
    return r


# ---------------------------------------------------------------- evaluation
def ev(e, m, memo=None):
    """value under the assignment m (var node -> int, default 0)"""
    if not isinstance(e, E):
        return e
    if memo is None:
        memo = {}
    return _ev(e, m, memo)


def _ev(e, m, memo):
    if not isinstance(e, E):
        return e
    r = memo.get(e)
    if r is not None:
        return r
    op = e.op
    w = e.w
    a = e.a
    if op == "var":
        r = m.get(e, 0) & MASK[w]
    elif op == "ite":
        r = _ev(a[1], m, memo) if _ev(a[0], m, memo) else _ev(a[2], m, memo)
    elif op == "zext":
        r = _ev(a[0], m, memo)
    elif op == "extract":
        r = (_ev(a[0], m, memo) >> a[2]) & MASK[w]
    elif op == "concat":
        wb = a[1].w if isinstance(a[1], E) else w - a[0].w
        r = (_ev(a[0], m, memo) << wb) | _ev(a[1], m, memo)
    elif op in ("eq", "ult", "ule", "slt", "sle"):
        r = {"eq": eq, "ult": ult, "ule": ule, "slt": slt, "sle": sle}[op](a[0], _ev(a[1], m, memo), _ev(a[2], m, memo))
    elif op == "sext":
        r = sext(w, _ev(a[0], m, memo), a[0].w)
    elif op in ("cttz", "ctlz", "ctpop"):
        r = {"cttz": cttz, "ctlz": ctlz, "ctpop": ctpop}[op](w, _ev(a[0], m, memo))
    else:
        r = _F[op](w, _ev(a[0], m, memo), _ev(a[1], m, memo))
    memo[e] = r
    return r


_F = dict(add=add, sub=sub, mul=mul, udiv=udiv, urem=urem, sdiv=sdiv, srem=srem, shl=shl, lshr=lshr, ashr=ashr,
          xor=xor)
_F["and"] = and_
_F["or"] = or_


def subst(e, m, memo=None):
    """substitute var nodes by values and re-simplify"""
    if not isinstance(e, E):
        return e
    if memo is None:
        memo = {}
    return _sub(e, m, memo)


def _sub(e, m, memo):
    if not isinstance(e, E):
        return e
    r = memo.get(e)
    if r is not None:
        return r
    op, w, a = e.op, e.w, e.a
    if op == "var":
        r = m.get(e, e)
    elif not any(v in m for v in varsof(e)):
        r = e
    elif op == "ite":
        r = ite(w, _sub(a[0], m, memo), _sub(a[1], m, memo), _sub(a[2], m, memo))
    elif op == "zext":
        r = zext(w, _sub(a[0], m, memo))
    elif op == "sext":
        r = sext(w, _sub(a[0], m, memo), a[0].w)
    elif op == "extract":
        r = extract(_sub(a[0], m, memo), a[1], a[2])
    elif op == "concat":
        wb = a[1].w if isinstance(a[1], E) else w - a[0].w
        r = concat(_sub(a[0], m, memo), w - wb, _sub(a[1], m, memo), wb)
    elif op in ("eq", "ult", "ule", "slt", "sle"):
        r = {"eq": eq, "ult": ult, "ule": ule, "slt": slt, "sle": sle}[op](a[0], _sub(a[1], m, memo), _sub(a[2], m, memo))
    elif op in ("cttz", "ctlz", "ctpop"):
        r = {"cttz": cttz, "ctlz": ctlz, "ctpop": ctpop}[op](w, _sub(a[0], m, memo))
    else:
        r = _F[op](w, _sub(a[0], m, memo), _sub(a[1], m, memo))
    memo[e] = r
    return r
