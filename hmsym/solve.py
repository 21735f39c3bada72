"""SMT back end: expression nodes -> z3 QF_BV, independence slicing, query cache, statistics."""
import time
import z3
from . import expr as X
from .expr import E

ctx = z3.main_ctx()
C = ctx.ref()
_sorts = {}


def sort(w):
    s = _sorts.get(w)
    if s is None:
        s = z3.Z3_mk_bv_sort(C, w)
        _sorts[w] = z3.SortRef(s, ctx)
    return _sorts[w].as_ast() if False else _sorts[w].ast


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0
        self.cached = 0
        self.model_hits = 0

    def d(self):
        return dict(queries=self.queries, sat=self.sat, unsat=self.unsat, unknown=self.unknown,
                    solver_s=round(self.time, 3), cache_hits=self.cached, answered_by_model=self.model_hits)


stats = Stats()
_keep = []


def _num(v, w):
    return z3.BitVecVal(v, w, ctx)


_sides = {}   # node id -> frozenset of side constraint indexes
_side_terms = []
_side_nodes = []
_EMPTY = frozenset()


def _zb(e):
    """1-bit value as z3 Bool"""
    if not isinstance(e, E):
        return z3.BoolVal(bool(e), ctx)
    return e.z


def _t(e, w):
    """z3 term for an operand (bit-vector of width w, or Bool for w == 1)"""
    if isinstance(e, E):
        return e.z
    if w == 1:
        return z3.BoolVal(bool(e), ctx)
    return _num(e, w)


def _bv(t, w):
    """as bit-vector"""
    if w == 1:
        return z3.If(t, _num(1, 1), _num(0, 1))
    return t


def wof(x, other=None):
    return x.w if isinstance(x, E) else None


def _fresh(name, w):
    return z3.BitVec(name, w, ctx) if w > 1 else z3.Bool(name, ctx)


def _divside(e, x, d, w):
    hi = x.hi
    wn = max(hi.bit_length(), d.bit_length()) + 1
    qm = hi // d
    wq = max(qm.bit_length(), 1)
    wr = max((d - 1).bit_length(), 1)
    key = (x.id, d)
    t = _divs.get(key)
    if t is None:
        q = z3.BitVec("q!%d!%d" % key, wq, ctx)
        r = z3.BitVec("r!%d!%d" % key, wr, ctx)
        xt = _bv(x.z, w)
        if wn > w:
            xt = z3.ZeroExt(wn - w, xt)
        elif wn < w:
            xt = z3.Extract(wn - 1, 0, xt)
        qe = z3.ZeroExt(wn - wq, q) if wn > wq else q
        re = z3.ZeroExt(wn - wr, r) if wn > wr else r
        c = z3.And(xt == qe * _num(d, wn) + re, z3.ULE(q, _num(qm, wq)), z3.ULT(r, _num(d, wr)) if d < (1 << wr) else True)
        _side_terms.append(c)
        t = (q, r, len(_side_terms) - 1, wq, wr)
        _divs[key] = t
    return t


_divs = {}


def trans(e):
    """translate node (iteratively)"""
    if not isinstance(e, E):
        return
    if e.z is not None:
        return
    stack = [e]
    while stack:
        n = stack[-1]
        if n.z is not None:
            stack.pop()
            continue
        todo = [x for x in n.a if isinstance(x, E) and x.z is None]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        _mk(n)


def _mk(e):
    op, w, a = e.op, e.w, e.a
    s = _EMPTY
    for x in a:
        if isinstance(x, E):
            t = _sides.get(x.id)
            if t:
                s = s | t if s else t
    if op == "var":
        z = _fresh(a[0], w)
    elif op in ("eq", "ult", "ule", "slt", "sle"):
        ow, x, y = a
        x, y = _bv(_t(x, ow), ow), _bv(_t(y, ow), ow)
        if op == "eq":
            z = x == y
        elif op == "ult":
            z = z3.ULT(x, y)
        elif op == "ule":
            z = z3.ULE(x, y)
        elif op == "slt":
            z = x < y
        else:
            z = x <= y
    elif op == "ite":
        z = z3.If(_zb(a[0]), _t(a[1], w), _t(a[2], w))
    elif w == 1 and op in ("and", "or", "xor"):
        x, y = _t(a[0], 1), _t(a[1], 1)
        if op == "and":
            z = z3.And(x, y)
        elif op == "or":
            z = z3.Or(x, y)
        elif not isinstance(a[1], E):
            z = z3.Not(x)
        else:
            z = z3.Xor(x, y)
    elif op == "zext":
        x = a[0]
        z = z3.ZeroExt(w - x.w, _bv(x.z, x.w))
    elif op == "sext":
        x = a[0]
        z = z3.SignExt(w - x.w, _bv(x.z, x.w))
    elif op == "extract":
        x = a[0]
        z = z3.Extract(a[1], a[2], x.z)
        if w == 1:
            z = z == _num(1, 1)
    elif op == "concat":
        wb = a[1].w if isinstance(a[1], E) else w - a[0].w
        wa = w - wb
        z = z3.Concat(_bv(_t(a[0], wa), wa), _bv(_t(a[1], wb), wb))
    elif op in ("udiv", "urem") and not isinstance(a[1], E) and a[1] != 0:
        q, r, si, wq, wr = _divside(e, a[0], a[1], w)
        if op == "udiv":
            z = z3.ZeroExt(w - wq, q) if wq < w else (z3.Extract(w - 1, 0, q) if wq > w else q)
        else:
            z = z3.ZeroExt(w - wr, r) if wr < w else r
        s = s | frozenset((si,))
    elif op == "cttz":
        x = a[0].z
        z = _num(w, w)
        for i in range(w - 1, -1, -1):
            z = z3.If(z3.Extract(i, i, x) == _num(1, 1), _num(i, w), z)
    elif op == "ctlz":
        x = a[0].z
        z = _num(w, w)
        for i in range(0, w):
            z = z3.If(z3.Extract(i, i, x) == _num(1, 1), _num(w - 1 - i, w), z)
    elif op == "ctpop":
        x = a[0].z
        parts = [z3.ZeroExt(w - 1, z3.Extract(i, i, x)) for i in range(w)]
        while len(parts) > 1:
            parts = [parts[i] + parts[i + 1] if i + 1 < len(parts) else parts[i] for i in range(0, len(parts), 2)]
        z = parts[0]
    else:
        x, y = _bv(_t(a[0], w), w), _bv(_t(a[1], w), w)
        if op == "add":
            z = x + y
        elif op == "sub":
            z = x - y
        elif op == "mul":
            z = x * y
        elif op == "udiv":
            z = z3.UDiv(x, y)
        elif op == "urem":
            z = z3.URem(x, y)
        elif op == "sdiv":
            z = x / y
        elif op == "srem":
            z = z3.SRem(x, y)
        elif op == "and":
            z = x & y
        elif op == "or":
            z = x | y
        elif op == "xor":
            z = x ^ y
        elif op == "shl":
            z = x << y
        elif op == "lshr":
            z = z3.LShR(x, y)
        elif op == "ashr":
            z = x >> y
        else:
            raise Exception("solve: op " + op)
        if w == 1:
            z = z == _num(1, 1)
    e.z = z
    if s:
        _sides[e.id] = s


SAT, UNSAT, UNKNOWN = "sat", "unsat", "unknown"
_cache = {}


def check(cons, timeout=30.0):
    """cons: iterable of 1-bit nodes.  Returns (result, model dict var->int)"""
    cs = []
    for c in cons:
        if isinstance(c, E):
            cs.append(c)
        elif not c:
            return UNSAT, None
    if not cs:
        return SAT, {}
    key = frozenset(c.id for c in cs)
    r = _cache.get(key)
    if r is not None:
        stats.cached += 1
        return r
    t0 = time.time()
    s = z3.SolverFor("QF_BV", ctx=ctx)
    s.set("timeout", int(timeout * 1000))
    sides = set()
    vs = set()
    for c in cs:
        trans(c)
        s.add(c.z)
        sides |= _sides.get(c.id, _EMPTY)
        vs |= X.varsof(c)
    for i in sides:
        s.add(_side_terms[i])
    res = s.check()
    stats.queries += 1
    if res == z3.sat:
        m = s.model()
        md = {}
        for v in vs:
            val = m.eval(v.z, model_completion=True)
            md[v] = (1 if z3.is_true(val) else 0) if v.w == 1 else val.as_long()
        ok = all(X.ev(c, md, ) for c in cs)
        if not ok:
            raise Exception("internal: model does not satisfy constraints (encoder bug)")
        r = (SAT, md)
        stats.sat += 1
    elif res == z3.unsat:
        r = (UNSAT, None)
        stats.unsat += 1
    else:
        r = (UNKNOWN, None)
        stats.unknown += 1
    stats.time += time.time() - t0
    _cache[key] = r
    return r


def slice_(pc, q):
    """constraints of pc transitively sharing variables with q"""
    vs = set(X.varsof(q))
    rest = [c for c in pc if isinstance(c, E)]
    out = []
    changed = True
    while changed:
        changed = False
        nr = []
        for c in rest:
            v = X.varsof(c)
            if not vs.isdisjoint(v):
                out.append(c)
                if not v <= vs:
                    vs |= v
                    changed = True
            else:
                nr.append(c)
        rest = nr
    return out
