"""Equivalence of two large word-level expressions by SAT sweeping: nodes that agree on random values are merged bottom-up, each merge
decided by the solver over cut points; equal roots are then the same class.  A merge proved over unconstrained cut points holds for every value."""
import random
from . import expr as X, solve as S
from .expr import E


class Sweep:
    def __init__(self, seed=1, k=4, w=32):
        self.rnd = random.Random(seed)
        self.k, self.w = k, w
        self.models = [{} for _ in range(k)]
        self.memos = [{} for _ in range(k)]
        self.cls = {}        # node -> class variable (or constant)
        self.struct = {}     # local expression -> class variable
        self.bysig = {}      # signature -> [class variable]
        self.defn = {}       # class variable -> local expression
        self.n = 0
        self.queries = 0

    def sig(self, e):
        r = []
        for i in range(self.k):
            m = self.models[i]
            for v in X.varsof(e):
                if v not in m:
                    m[v] = self.rnd.getrandbits(v.w)
            r.append(X.ev(e, m, self.memos[i]))
        return tuple(r)

    def local(self, e, memo):
        """e over the class variables of its word-sized operands"""
        if not isinstance(e, E):
            return e
        if e in memo:
            return memo[e]
        op, w, a = e.op, e.w, e.a
        f = lambda x: self.node(x) if isinstance(x, E) and x.w == self.w and x.op != "extract" else self.local(x, memo)
        if op == "var":
            r = e
        elif op == "ite":
            r = X.ite(w, f(a[0]), f(a[1]), f(a[2]))
        elif op == "zext":
            r = X.zext(w, f(a[0]))
        elif op == "sext":
            r = X.sext(w, f(a[0]), a[0].w)
        elif op == "extract":
            r = X.extract(f(a[0]), a[1], a[2])
        elif op == "concat":
            wb = a[1].w if isinstance(a[1], E) else w - a[0].w
            r = X.concat(f(a[0]), w - wb, f(a[1]), wb)
        elif op in ("eq", "ult", "ule", "slt", "sle"):
            r = getattr(X, op)(a[0], f(a[1]), f(a[2]))
        elif op in X._F:
            r = X._F[op](w, f(a[0]), f(a[1]))
        else:
            r = e
        memo[e] = r
        return r

    def order(self, root):
        """word-sized nodes below root, operands first"""
        out, seen, st = [], set(), [(root, 0)]
        while st:
            n, d = st.pop()
            if d:
                out.append(n)
                continue
            if not isinstance(n, E) or n in seen or n in self.cls:
                continue
            seen.add(n)
            st.append((n, 1))
            if n.op != "var":
                for x in n.a:
                    if isinstance(x, E):
                        st.append((x, 0))
        return [n for n in out if n.w == self.w and n.op != "extract"]

    def node(self, n):
        """class variable of a word-sized node (operands have been done)"""
        r = self.cls.get(n)
        if r is not None:
            return r
        if n.op == "var":
            self.cls[n] = n
            return n
        e = self.local(n, {})
        r = self.struct.get(e) if isinstance(e, E) else e
        if isinstance(e, E) and e.op == "var":
            r = e
        if r is None:
            s = self.sig(n)
            for v in self.bysig.get(s, ()):
                if self.equal(e, v):
                    r = v
                    break
            if r is None:
                self.n += 1
                r = X.var("cut%d:%d" % (self.n, self.w), self.w)
                self.defn[r] = e
                self.bysig.setdefault(s, []).append(r)
            self.struct[e] = r
        self.cls[n] = r
        return r

    def expand(self, e):
        m = {v: self.defn[v] for v in X.varsof(e) if v in self.defn} if isinstance(e, E) else None
        return X.subst(e, m) if m else e

    def equal(self, e, v):
        a, b = e, self.defn[v]
        for d in range(4):
            q = X.ne(self.w, a, b)
            if not isinstance(q, E):
                if not q:
                    return True
            else:
                self.queries += 1
                if S.check([q], 3)[0] == S.UNSAT:
                    return True
            a, b = self.expand(a), self.expand(b)
        return False

    def same(self, a, b):
        """True: proved equal; False: differs (or not proved)"""
        if a is b or not isinstance(a, E) and a == b:
            return True
        r = []
        for x in (a, b):
            if isinstance(x, E):
                for n in self.order(x):
                    self.node(n)
                r.append(self.cls[x] if x in self.cls else self.local(x, {}))
            else:
                r.append(x)
        if r[0] is r[1] or not isinstance(r[0], E) and r[0] == r[1]:
            return True
        q = X.ne(a.w if isinstance(a, E) else b.w, r[0], r[1])
        return not isinstance(q, E) and not q
