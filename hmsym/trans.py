"""Translate LLVM IR modules of the code under test into Python functions operating on symbolic values.

Every function of the source becomes one Python function  fn_<symbol>(M, args...)  whose straight-line code computes on
Python ints (concrete) or expr.E nodes (symbolic); branches on symbolic conditions go through M.decide()."""
import ctypes as ct
from . import llvm, expr as X
from .llvm import OPC, PRED, RMW, vname, pstr
from .expr import E

STEP_LIMIT = 3000000


class Unsupported(Exception):
    pass


class Program:
    def __init__(self):
        self.mods = []
        self.sym = {}        # global name -> address
        self.fnaddr = {}     # address -> python function name
        self.fnames = []     # defined function display names
        self.defs = {}       # symbol -> (mod, value)
        self.data = []       # (addr, size, bytes/relocs list, writable)
        self.code_next = 0x10000
        self.ro_next = 0x400000
        self.rw_next = 0x800000
        self.tls_off = {}
        self.tls_size = 0x100
        self.tls_init = []
        self.ns = None
        self.src = None
        self.externs = set()
        self.typeids = {}
        self.gsize = {}

    def add(self, path):
        m = llvm.Module(path)
        m.idx = len(self.mods)
        m.local = {}
        self.mods.append(m)

    # ------------------------------------------------------------------ linking
    def link(self, hooks):
        """hooks: set of names implemented by the environment (override or extern)"""
        L = llvm.L
        self.hooks = hooks
        for m in self.mods:
            for f in m.functions():
                if L.LLVMIsDeclaration(f):
                    continue
                n = vname(f)
                internal = L.LLVMGetLinkage(f) in (8, 9)
                key = n if not internal else "%s@%d" % (n, m.idx)
                m.local[n] = key
                if key not in self.defs:
                    self.defs[key] = (m, f)
            for a in m.aliases():
                n = vname(a)
                al = L.LLVMAliasGetAliasee(a)
                m.local[n] = n
                self.defs[n] = ("alias", m, al)
        for m in self.mods:
            for g in m.globals():
                n = vname(g)
                if n.startswith("llvm."):
                    continue
                t = m.type(L.LLVMGlobalGetValueType(g))
                size = t.size
                al = max(L.LLVMGetAlignment(g), 16, t.align or 1)
                internal = L.LLVMGetLinkage(g) in (8, 9)
                if L.LLVMIsDeclaration(g):
                    continue
                key = n if not internal else "%s@%d" % (n, m.idx)
                if key in self.sym or key in self.tls_off:
                    m.local[n] = key
                    continue
                m.local[n] = key
                if L.LLVMIsThreadLocal(g):
                    self.tls_size = (self.tls_size + al - 1) & ~(al - 1)
                    self.tls_off[key] = self.tls_size
                    self.tls_init.append((self.tls_size, m, L.LLVMGetInitializer(g), t))
                    self.tls_size += size
                    continue
                const = L.LLVMIsGlobalConstant(g)
                if const:
                    a = (self.ro_next + al - 1) & ~(al - 1)
                    self.ro_next = a + size
                else:
                    a = (self.rw_next + al - 1) & ~(al - 1)
                    self.rw_next = a + size
                self.sym[key] = a
                self.gsize[key] = size
                self.data.append((a, size, m, L.LLVMGetInitializer(g), t, not const))
        self.ro_end = (self.ro_next + 4095) & ~4095
        self.rw_end = (self.rw_next + 4095) & ~4095

    def symaddr(self, m, v):
        """address of a global value (function / variable / alias)"""
        L = llvm.L
        n = vname(v)
        key = m.local.get(n, n)
        a = self.sym.get(key)
        if a is not None:
            return a
        d = self.defs.get(key)
        if d and d[0] == "alias":
            a = self.symaddr(d[1], d[2])
        elif L.LLVMIsAFunction(v):
            a = self.code_next
            self.code_next += 16
            self.fnaddr[a] = key
        else:
            a = self.rw_end + 0x1000 + len(self.externs) * 64
            self.externs.add(n)
        self.sym[key] = a
        return a

    def const(self, m, v):
        """evaluate a constant to a python value"""
        L = llvm.L
        t = m.tyof(v)
        if L.LLVMIsAConstantInt(v):
            return m.constint(v)
        if L.LLVMIsAConstantPointerNull(v):
            return 0
        if L.LLVMIsAFunction(v) or L.LLVMIsAGlobalVariable(v) or L.LLVMIsAGlobalAlias(v):
            return self.symaddr(m, v)
        if L.LLVMIsAUndefValue(v) or L.LLVMIsAPoisonValue(v):
            return self.zero(t)
        if L.LLVMIsAConstantAggregateZero(v):
            return self.zero(t)
        if L.LLVMIsAConstantExpr(v):
            op = OPC.get(L.LLVMGetConstOpcode(v))
            ops = m.ops(v)
            if op in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast"):
                return self.const(m, ops[0]) & X.mask(t.w)
            if op in ("zext", "trunc"):
                return self.const(m, ops[0]) & X.mask(t.w)
            if op == "gep":
                base = self.const(m, ops[0])
                off, dyn = self.gepoff(m, v, ops, lambda x: self.const(m, x))
                assert not dyn
                return (base + off) & X.MASK[64]
            if op in ("add", "sub", "and", "or", "xor", "mul", "shl", "lshr"):
                f = {"and": "and_", "or": "or_"}.get(op, op)
                return getattr(X, f)(t.w, self.const(m, ops[0]), self.const(m, ops[1]))
            raise Unsupported("constexpr %s" % op)
        if L.LLVMIsAConstantDataSequential(v):
            n = t.n
            return tuple(self.const(m, L.LLVMGetElementAsConstant(v, i)) for i in range(n))
        if L.LLVMIsAConstantStruct(v) or L.LLVMIsAConstantArray(v) or L.LLVMIsAConstantVector(v):
            return tuple(self.const(m, x) for x in m.ops(v))
        raise Unsupported("constant " + pstr(L.LLVMPrintValueToString(v)))

    def zero(self, t):
        if t.kind in ("int", "ptr"):
            return 0
        if t.kind == "struct":
            return tuple(self.zero(e) for e in t.elems)
        if t.kind in ("array", "vector"):
            return (self.zero(t.elems[0]),) * t.n
        return 0

    def gepoff(self, m, v, ops, cval):
        """(constant offset, [(index operand, scale)]) ; cval(x) -> int or None"""
        L = llvm.L
        t = m.type(L.LLVMGetGEPSourceElementType(v))
        off = 0
        dyn = []

        def idx(o, scale):
            nonlocal off
            w = m.tyof(o).w
            c = cval(o) if L.LLVMIsConstant(o) else None
            if c is not None:
                if c >> (w - 1):
                    c -= 1 << w
                off += c * scale
            else:
                dyn.append((o, scale, w))
        idx(ops[1], t.size)
        for o in ops[2:]:
            if t.kind == "struct":
                i = m.constint(o)
                off += t.offs[i]
                t = t.elems[i]
            else:
                t = t.elems[0]
                idx(o, t.size)
        return off, dyn

    def flat(self, m, t, v, base, out):
        """flatten constant python value into (offset, nbytes, int)"""
        if t.kind in ("int", "ptr"):
            if v:
                out.append((base, t.store, v))
        elif t.kind == "struct":
            for i, e in enumerate(t.elems):
                self.flat(m, e, v[i], base + t.offs[i], out)
        else:
            es = t.elems[0].size
            for i in range(t.n):
                self.flat(m, t.elems[0], v[i], base + i * es, out)

    # ------------------------------------------------------------------ code generation
    def codegen(self):
        L = llvm.L
        out = []
        self.cov_names = []
        for key, d in self.defs.items():
            if d[0] == "alias":
                continue
            m, f = d
            if key.split("@")[0] in self.hooks:
                continue
            out.append(FnGen(self, m, f, key).gen())
        for key, d in self.defs.items():
            if d[0] == "alias":
                n = vname(d[2])
                out.append("%s = %s\n" % (pyname(key), pyname(d[1].local.get(n, n))))
        self.src = "\n".join(out)
        return self.src

    def callname(self, m, v):
        n = vname(v)
        return m.local.get(n, n)


def pyname(k):
    return "fn_" + "".join(c if c.isalnum() or c == "_" else "_%02x" % ord(c) for c in k)


class FnGen:
    def __init__(self, prog, m, f, key):
        self.p = prog
        self.m = m
        self.f = f
        self.key = key
        self.names = {}
        self.lines = []
        self.has_alloca = False

    def nm(self, v):
        n = self.names.get(v)
        if n is None:
            n = "v%d" % len(self.names)
            self.names[v] = n
        return n

    def op(self, v):
        L = llvm.L
        if L.LLVMIsConstant(v) and not L.LLVMIsABasicBlock(v):
            if L.LLVMIsAUndefValue(v):
                t = self.m.tyof(v)
                if t.kind in ("int", "ptr"):
                    return "0"
            c = self.p.const(self.m, v)
            return repr(c) if not isinstance(c, int) or c < 10 else hex(c)
        return self.nm(v)

    def isconst(self, v):
        return bool(llvm.L.LLVMIsConstant(v))

    def gen(self):
        L = llvm.L
        m = self.m
        nargs = L.LLVMCountParams(self.f)
        args = [self.nm(L.LLVMGetParam(self.f, i)) for i in range(nargs)]
        blocks = list(m.blocks(self.f))
        self.bidx = {b: i for i, b in enumerate(blocks)}
        bodies = []
        for b in blocks:
            self.cur = b
            self.lines = []
            try:
                for i in m.instrs(b):
                    self.instr(i)
            except Unsupported as ex:
                self.lines.append("M.unsup(%r)" % str(ex))
            bodies.append(self.lines or ["pass"])
        ci = len(self.p.cov_names)
        self.p.cov_names.append(self.key)
        h = ["def %s(M%s):" % (pyname(self.key), "".join(", " + a for a in args) + (", *va" if L.LLVMIsFunctionVarArg(llvm.L.LLVMGlobalGetValueType(self.f)) else ""))]
        h.append(" M.cov[%d] = 1" % ci)
        if self.has_alloca:
            h.append(" sp0 = M.sp")
        if len(bodies) == 1:
            h += [" " + l for l in bodies[0]]
        else:
            h.append(" b = 0")
            h.append(" n = 0")
            h.append(" while 1:")
            h.append("  n += 1")
            h.append("  if n > %d: M.step_limit(%r)" % (STEP_LIMIT, self.key))
            self.tree(h, bodies, 0, len(bodies), "  ")
        return "\n".join(h) + "\n"

    def tree(self, h, bodies, lo, hi, ind):
        if hi - lo == 1:
            h += [ind + l for l in bodies[lo]]
            return
        mid = (lo + hi) // 2
        h.append("%sif b < %d:" % (ind, mid))
        self.tree(h, bodies, lo, mid, ind + " ")
        h.append("%selse:" % ind)
        self.tree(h, bodies, mid, hi, ind + " ")

    def edge(self, to, ind=""):
        """statements that take the edge cur -> to"""
        L = llvm.L
        lhs, rhs = [], []
        for i in self.m.instrs(to):
            if OPC.get(L.LLVMGetInstructionOpcode(i)) != "phi":
                break
            for k in range(L.LLVMCountIncoming(i)):
                if L.LLVMGetIncomingBlock(i, k) == self.cur:
                    lhs.append(self.nm(i))
                    rhs.append(self.op(L.LLVMGetIncomingValue(i, k)))
                    break
        r = []
        pairs = [(a, b) for a, b in zip(lhs, rhs) if a != b]
        if pairs:
            r.append("%s = %s" % (", ".join(a for a, b in pairs), ", ".join(b for a, b in pairs)))
        r.append("b = %d" % self.bidx[to])
        return "; ".join(r)

    def emit(self, s):
        self.lines.append(s)

    def instr(self, i):
        L = llvm.L
        m = self.m
        op = OPC.get(L.LLVMGetInstructionOpcode(i))
        t = m.tyof(i)
        w = t.w
        e = self.emit
        if op == "phi":
            return
        if op == "ret":
            ops = m.ops(i)
            if self.has_alloca:
                e("M.sp = sp0")
            e("return " + (self.op(ops[0]) if ops else "None"))
            return
        if op == "br":
            n = L.LLVMGetNumSuccessors(i)
            if n == 1:
                e(self.edge(L.LLVMGetSuccessor(i, 0)))
                e("continue") if True else None
                return
            c = self.op(m.ops(i)[0])
            tb, fb = L.LLVMGetSuccessor(i, 0), L.LLVMGetSuccessor(i, 1)
            e("if (%s if %s.__class__ is int else M.decide(%s)): %s" % (c, c, c, self.edge(tb)) if not c[0].isdigit() else "if %s: %s" % (c, self.edge(tb)))
            e("else: " + self.edge(fb))
            e("continue")
            return
        if op == "switch":
            ops = m.ops(i)
            c = self.op(ops[0])
            wt = m.tyof(ops[0]).w
            for k in range(2, len(ops), 2):
                val = m.constint(ops[k])
                bb = L.LLVMValueAsBasicBlock(ops[k + 1])
                e("%s M.cond(eq(%d, %s, %d)): %s" % ("if" if k == 2 else "elif", wt, c, val, self.edge(bb)))
            dd = L.LLVMGetSwitchDefaultDest(i)
            e(("else: " if len(ops) > 2 else "") + self.edge(dd))
            e("continue")
            return
        if op == "unreachable":
            e("M.unreachable(%r)" % self.key)
            return
        if op == "alloca":
            self.has_alloca = True
            at = m.type(L.LLVMGetAllocatedType(i))
            cnt = self.op(m.ops(i)[0])
            e("%s = M.alloca(%d, %s, %d)" % (self.nm(i), at.size, cnt, max(at.align, L.LLVMGetAlignment(i), 8)))
            return
        if op == "load":
            p = self.op(m.ops(i)[0])
            ao = L.LLVMGetOrdering(i)
            if ao:
                e("M.aord = %d" % ao)
            e("%s = %s" % (self.nm(i), self.load(t, p)))
            if ao:
                e("M.aord = 0")
            return
        if op == "store":
            ops = m.ops(i)
            ao = L.LLVMGetOrdering(i)
            if ao:
                e("M.aord = %d" % ao)
            self.store(m.tyof(ops[0]), self.op(ops[0]), self.op(ops[1]))
            if ao:
                e("M.aord = 0")
            return
        if op == "gep":
            ops = m.ops(i)
            base = self.op(ops[0])
            off, dyn = self.p.gepoff(m, i, ops, lambda o: self.p.const(m, o))
            off &= X.MASK[64]
            terms = []
            for o, sc, ow in dyn:
                x = self.op(o)
                if ow < 64:
                    x = "sext(64, %s, %d)" % (x, ow)
                terms.append((x, sc))
            n = self.nm(i)
            if not terms and not off:
                e("%s = %s" % (n, base))
                return
            simple = all(t_[0].isidentifier() for t_ in terms)
            ints = [x for x in [base] + [t_[0] for t_ in terms] if x.isidentifier()]
            conc = base + "".join(" + %s*%d" % (x, sc) for x, sc in terms) + (" + %d" % off if off else "")
            sym = base
            for x, sc in terms:
                sym = "add(64, %s, mul(64, %s, %d))" % (sym, x, sc & X.MASK[64])
            if off:
                sym = "add(64, %s, %d)" % (sym, off)
            if simple and ints:
                chk = " and ".join("%s.__class__ is int" % x for x in ints)
                e("%s = (%s) & 0xffffffffffffffff if %s else %s" % (n, conc, chk, sym))
            else:
                e("%s = %s" % (n, sym))
            return
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            if t.kind == "vector":
                raise Unsupported("vector " + op)
            a, b = [self.op(o) for o in m.ops(i)]
            f = {"and": "and_", "or": "or_"}.get(op, op)
            n = self.nm(i)
            if op in ("udiv", "urem", "sdiv", "srem"):
                if not b[0].isdigit() or b == "0":
                    e("M.divcheck(%s, %d)" % (b, w))
            ids = [x for x in (a, b) if x.isidentifier()]
            chk = " and ".join("%s.__class__ is int" % x for x in ids)
            mk = hex(X.mask(w))
            if op in ("add", "sub", "mul"):
                e("%s = (%s %s %s) & %s if %s else %s(%d, %s, %s)" % (n, a, {"add": "+", "sub": "-", "mul": "*"}[op], b, mk, chk or "1", f, w, a, b))
            elif op in ("and", "or", "xor"):
                e("%s = %s %s %s if %s else %s(%d, %s, %s)" % (n, a, {"and": "&", "or": "|", "xor": "^"}[op], b, chk or "1", f, w, a, b))
            else:
                e("%s = %s(%d, %s, %s)" % (n, f, w, a, b))
            return
        if op == "icmp":
            ops = m.ops(i)
            ot = m.tyof(ops[0])
            if ot.kind == "vector":
                raise Unsupported("vector icmp")
            a, b = self.op(ops[0]), self.op(ops[1])
            pr = PRED[L.LLVMGetICmpPredicate(i)]
            n = self.nm(i)
            sym = {"eq": "eq", "ne": "ne", "ugt": "ugt", "uge": "uge", "ult": "ult", "ule": "ule", "slt": "slt", "sle": "sle"}.get(pr)
            if pr == "sgt":
                f = "slt(%d, %s, %s)" % (ot.w, b, a)
            elif pr == "sge":
                f = "sle(%d, %s, %s)" % (ot.w, b, a)
            else:
                f = "%s(%d, %s, %s)" % (sym, ot.w, a, b)
            cm = {"eq": "==", "ne": "!=", "ugt": ">", "uge": ">=", "ult": "<", "ule": "<="}.get(pr)
            ids = [x for x in (a, b) if x.isidentifier()]
            if cm and ids:
                chk = " and ".join("%s.__class__ is int" % x for x in ids)
                e("%s = (1 if %s %s %s else 0) if %s else %s" % (n, a, cm, b, chk, f))
            else:
                e("%s = %s" % (n, f))
            return
        if op in ("trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "freeze", "addrspacecast"):
            o = m.ops(i)[0]
            a = self.op(o)
            ow = m.tyof(o).w
            n = self.nm(i)
            if t.kind == "vector" or m.tyof(o).kind == "vector":
                raise Unsupported("vector " + op)
            if op in ("bitcast", "freeze", "addrspacecast") or w == ow:
                e("%s = %s" % (n, a))
            elif op == "sext":
                e("%s = sext(%d, %s, %d)" % (n, w, a, ow))
            elif w > ow:
                e("%s = %s if %s.__class__ is int else zext(%d, %s)" % (n, a, a, w, a) if a.isidentifier() else "%s = %s" % (n, a))
            else:
                e("%s = trunc(%d, %s)" % (n, w, a))
            return
        if op == "select":
            c, a, b = m.ops(i)
            c, a, b = self.op(c), self.op(a), self.op(b)
            if t.kind in ("int", "ptr"):
                e("%s = ((%s if %s else %s) if %s.__class__ is int else M.sel(%d, %s, %s, %s))" % (self.nm(i), a, c, b, c, w, c, a, b) if c.isidentifier() else "%s = %s if %s else %s" % (self.nm(i), a, c, b))
            else:
                e("%s = %s if M.cond(%s) else %s" % (self.nm(i), a, c, b))
            return
        if op == "extractvalue":
            n = L.LLVMGetNumIndices(i)
            ix = L.LLVMGetIndices(i)
            e("%s = %s%s" % (self.nm(i), self.op(m.ops(i)[0]), "".join("[%d]" % ix[k] for k in range(n))))
            return
        if op == "insertvalue":
            n = L.LLVMGetNumIndices(i)
            ix = L.LLVMGetIndices(i)
            a, b = [self.op(o) for o in m.ops(i)]
            e("%s = M.insval(%s, %s, %s)" % (self.nm(i), a, b, tuple(ix[k] for k in range(n))))
            return
        if op == "fence":
            return
        if op == "atomicrmw":
            ops = m.ops(i)
            p, v = self.op(ops[0]), self.op(ops[1])
            kind = RMW[L.LLVMGetAtomicRMWBinOp(i)]
            n = self.nm(i)
            e("M.atomic += 1")
            e("%s = M.load(%s, %d)" % (n, p, w // 8))
            new = {"xchg": v, "add": "add(%d, %s, %s)" % (w, n, v), "sub": "sub(%d, %s, %s)" % (w, n, v), "and": "and_(%d, %s, %s)" % (w, n, v),
                   "or": "or_(%d, %s, %s)" % (w, n, v), "xor": "xor(%d, %s, %s)" % (w, n, v)}.get(kind)
            if new is None:
                raise Unsupported("atomicrmw " + kind)
            e("M.store(%s, %d, %s)" % (p, w // 8, new))
            e("M.atomic -= 1")
            return
        if op == "cmpxchg":
            p, c, v = [self.op(o) for o in m.ops(i)]
            ow = m.tyof(m.ops(i)[1]).w
            n = self.nm(i)
            e("M.atomic += 1")
            e("%s = M.cmpxchg(%s, %d, %s, %s)" % (n, p, ow // 8, c, v))
            e("M.atomic -= 1")
            return
        if op in ("call", "invoke"):
            self.call(i, op, t)
            return
        if op == "landingpad":
            cl = []
            for k in range(L.LLVMGetNumClauses(i)):
                c = L.LLVMGetClause(i, k)
                cl.append(self.p.const(m, c))
            e("%s = M.landingpad(%r, %d)" % (self.nm(i), cl, L.LLVMIsCleanup(i)))
            return
        if op == "resume":
            e("M.resume()")
            return
        raise Unsupported("instruction %s (%s)" % (op or L.LLVMGetInstructionOpcode(i), pstr(L.LLVMPrintValueToString(i))))

    def load(self, t, p):
        if t.kind == "int":
            if t.w % 8 == 0:
                return "M.load(%s, %d)" % (p, t.w // 8)
            return "trunc(%d, M.load(%s, %d))" % (t.w, p, t.store)
        if t.kind == "ptr":
            return "M.load(%s, 8)" % p
        if t.kind == "struct":
            return "(" + "".join(self.load(x, "add(64, %s, %d)" % (p, o)) + ", " for x, o in zip(t.elems, t.offs)) + ")"
        if t.kind == "array":
            return "(" + "".join(self.load(t.elems[0], "add(64, %s, %d)" % (p, k * t.elems[0].size)) + ", " for k in range(t.n)) + ")"
        raise Unsupported("load of " + t.kind)

    def store(self, t, v, p):
        if t.kind == "int":
            if t.w % 8 == 0:
                self.emit("M.store(%s, %d, %s)" % (p, t.w // 8, v))
            else:
                self.emit("M.store(%s, %d, zext(%d, %s))" % (p, t.store, t.store * 8, v))
        elif t.kind == "ptr":
            self.emit("M.store(%s, 8, %s)" % (p, v))
        elif t.kind == "struct":
            for k, (x, o) in enumerate(zip(t.elems, t.offs)):
                self.store(x, "%s[%d]" % (v, k), "add(64, %s, %d)" % (p, o))
        elif t.kind == "array":
            for k in range(t.n):
                self.store(t.elems[0], "%s[%d]" % (v, k), "add(64, %s, %d)" % (p, k * t.elems[0].size))
        else:
            raise Unsupported("store of " + t.kind)

    def call(self, i, op, t):
        L = llvm.L
        m = self.m
        cv = L.LLVMGetCalledValue(i)
        nargs = L.LLVMGetNumArgOperands(i)
        rawargs = [L.LLVMGetOperand(i, k) for k in range(nargs)]
        dst = "" if t.kind == "void" else self.nm(i) + " = "
        e = self.emit
        expr = None
        if L.LLVMIsAInlineAsm(cv):
            n = ct.c_size_t()
            s = ct.string_at(L.LLVMGetInlineAsmAsmString(cv, ct.byref(n)), n.value).decode()
            args = [self.op(a) for a in rawargs]
            cons = ct.string_at(L.LLVMGetInlineAsmConstraintString(cv, ct.byref(n)), n.value).decode()
            expr = "M.asm(%r, [%s], %r)" % (s, ", ".join(args), cons)
        elif L.LLVMIsAFunction(cv) or L.LLVMIsAGlobalAlias(cv):
            name = vname(cv)
            if name.startswith("llvm."):
                expr = self.intrinsic(name, rawargs, t)
                if expr is None:
                    return
            else:
                args = [self.op(a) for a in rawargs]
                key = self.p.callname(m, cv)
                if key.split("@")[0] in self.p.hooks:
                    expr = "M.hook(%r, %s)" % (key.split("@")[0], "[" + ", ".join(args) + "]")
                elif key in self.p.defs:
                    expr = "%s(M%s)" % (pyname(key), "".join(", " + a for a in args))
                else:
                    expr = "M.hook(%r, %s)" % (key, "[" + ", ".join(args) + "]")
        else:
            args = [self.op(a) for a in rawargs]
            expr = "M.icall(%s, [%s])" % (self.op(cv), ", ".join(args))
        if op == "call":
            e(dst + expr)
            return
        nd = L.LLVMGetNormalDest(i)
        ud = L.LLVMGetUnwindDest(i)
        self.has_alloca = True
        e("try: %s%s" % (dst, expr))
        e("except CxxThrow as ex:")
        e(" M.exc = ex; " + self.edge(ud))
        e(" continue")
        e(self.edge(nd))
        e("continue")

    def intrinsic(self, name, ra, t):
        a = None
        n = name[5:].split(".")[0]
        full = name[5:]

        def A(k):
            return self.op(ra[k])
        w = t.w
        if n in ("lifetime", "dbg", "assume", "prefetch", "donothing", "stackrestore", "experimental", "invariant"):
            if n == "invariant" and t.kind != "void":
                return "0"
            return None
        if full.startswith("expect"):
            return A(0)
        if n in ("uadd", "usub", "umul", "sadd", "ssub", "smul"):
            sub = name.split(".")[2]
            ow = self.m.tyof(ra[0]).w
            if sub == "with":
                return "M.ovf(%r, %d, %s, %s)" % (n, ow, A(0), A(1))
            return "M.sat(%r, %d, %s, %s)" % (n, ow, A(0), A(1))
        if n == "cttz":
            return "M.cttz(%d, %s, %s)" % (w, A(0), A(1))
        if n == "ctlz":
            return "ctlz(%d, %s)" % (w, A(0))
        if n == "ctpop":
            return "ctpop(%d, %s)" % (w, A(0))
        if n == "bswap":
            return "bswap(%d, %s)" % (w, A(0))
        if n == "fshl":
            return "fshl(%d, %s, %s, %s)" % (w, A(0), A(1), A(2))
        if n == "fshr":
            return "fshl(%d, %s, %s, sub(%d, %d, %s))" % (w, A(0), A(1), w, w, A(2))
        if n in ("umin", "umax", "smin", "smax"):
            f = {"u": "ult", "s": "slt"}[n[0]]
            x, y = A(0), A(1)
            if n.endswith("min"):
                return "ite(%d, %s(%d, %s, %s), %s, %s)" % (w, f, w, x, y, x, y)
            return "ite(%d, %s(%d, %s, %s), %s, %s)" % (w, f, w, x, y, y, x)
        if n == "abs":
            return "ite(%d, slt(%d, %s, 0), sub(%d, 0, %s), %s)" % (w, w, A(0), w, A(0), A(0))
        if n in ("memcpy", "memmove"):
            return "M.memcpy(%s, %s, %s)" % (A(0), A(1), A(2))
        if n == "memset":
            return "M.memset(%s, %s, %s)" % (A(0), A(1), A(2))
        if n == "threadlocal":
            v = ra[0]
            key = self.m.local.get(vname(v), vname(v))
            return "M.tlsaddr(%d)" % self.p.tls_off[key]
        if n == "objectsize":
            return hex(X.mask(w))
        if n == "is":
            return "0"
        if n == "trap" or n == "ubsantrap" or n == "debugtrap":
            return "M.trap()"
        if n == "eh":
            return "M.typeid(%s)" % A(0)
        if n in ("stacksave", "returnaddress", "frameaddress"):
            return "0"
        if n == "ptrmask":
            return "and_(64, %s, %s)" % (A(0), A(1))
        raise Unsupported("intrinsic " + name)
