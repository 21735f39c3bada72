"""Memory tagging: address tags ignored by translation, tag memory, random tag insertion, and the instructions of arm_mte.h's inline assembly."""
import re
from . import expr as X
from .expr import E
from .machine import Unsupported, Hang
from .env import cval, hook

LOW = (1 << 56) - 1
PROT_MTE = 0x20


def split(a):
    """(tag, address)"""
    if a.__class__ is int:
        return a >> 56, a & LOW
    if X.hi_(a) <= LOW:
        return 0, a
    return X.zext(64, X.extract(a, 63, 56)), X.and_(64, a, LOW)


class Mte:
    def __init__(self, M):
        self.M = M
        self.load0, self.store0, self.memset0, self.memcpy0 = M.load, M.store, M.memset, M.memcpy
        M.load, M.store, M.memset, M.memcpy = self.load, self.store, self.memset, self.memcpy

    @property
    def log(self):
        """[(a, b, tag)], latest last, disjoint"""
        return self.M.ghost.setdefault("mtelog", [])

    def enabled(self, a):
        """is the page of a mapped for tagging"""
        self.sync()
        for x in self.M.ghost.get("mtemaps", ()):
            if x[0] <= a < x[1]:
                return True
        return False

    def sync(self):
        """follow the mappings: fresh pages have tag 0"""
        M = self.M
        n = M.ghost.get("mteev", 0)
        ev = M.events
        if n == len(ev):
            return
        if n > len(ev):
            n = 0
        M.ghost["mteev"] = len(ev)
        for e in ev[n:]:
            on = None
            if e[0] == "mmap" and not e[6]:
                a, l, on = e[5], e[2], bool(cval(M, e[3]) & PROT_MTE)
            elif e[0] == "munmap" and not e[3]:
                a, l, on = e[1], e[2], False
            elif e[0] == "madvise" and not e[4] and e[3] == 4:
                a, l = e[1], e[2]
            else:
                continue
            if isinstance(a, int) and isinstance(l, int):
                l = l + 4095 & ~4095
                self.put(a, a + l, None)
                if on is not None:
                    self.put(a, a + l, 1 if on else None, "mtemaps")

    def put(self, a, b, t, key="mtelog"):
        L = []
        for x in self.M.ghost.get(key, ()):
            if x[1] <= a or b <= x[0]:
                L.append(x)
                continue
            if x[0] < a:
                L.append((x[0], a, x[2]))
            if b < x[1]:
                L.append((b, x[1], x[2]))
        if t is not None:
            if L and L[-1][1] == a and L[-1][2] is t:
                a = L.pop()[0]
            L.append((a, b, t))
        self.M.ghost[key] = L

    def tags(self, a, n):
        """[(a, b, tag)] covering [a, a+n)"""
        self.sync()
        r = sorted(((max(x[0], a), min(x[1], a + n), x[2]) for x in self.log if x[0] < a + n and a < x[1]), key=lambda x: x[0])
        o, p = [], a
        for x in r:
            if p < x[0]:
                o.append((p, x[0], 0))
            o.append(x)
            p = x[1]
        if p < a + n:
            o.append((p, a + n, 0))
        return o

    def access(self, a, n):
        """address with the tag removed, after the tag check"""
        if self.inside:
            return a
        t, p = split(a)
        if not self.log and t.__class__ is int and t == 0:
            return p
        M = self.M
        pu = M.conc(p)
        if pu is None:
            return p
        nu = M.conc(n) if not isinstance(n, int) else n
        if not self.enabled(pu):
            return pu
        for x in self.tags(pu, nu if nu is not None else 16):
            if not M.decide(X.eq(64, x[2], X.and_(64, t, 15))):
                M.segv(x[0], "tag")
        return pu

    def load(self, a, n):
        if a.__class__ is int and a < 0x100000000000:
            return self.load0(a, n)
        return self.raw(self.load0, self.access(a, n), n)

    def store(self, a, n, v):
        if a.__class__ is int and a < 0x100000000000:
            return self.store0(a, n, v)
        return self.raw(self.store0, self.access(a, n), n, v)

    inside = 0

    def memset(self, p, c, n):
        self.raw(self.memset0, self.access(p, n), c, n)
        return p

    def memcpy(self, d, s, n):
        self.raw(self.memcpy0, self.access(d, n), self.access(s, n), n)
        return d

    def raw(self, f, *a):
        self.inside += 1
        try:
            return f(*a)
        finally:
            self.inside -= 1

    # ---------------------------------------------------------------- instructions
    def irg(self, p, mask):
        M = self.M
        m = X.and_(64, mask, 0xffff)
        if M.decide(X.eq(64, m, 0xffff)):
            t = 0
        elif M.ghost.get("mtesym"):
            t = X.zext(64, M.frange("tag", 15))
            M.assume(X.eq(1, X.trunc(1, X.lshr(64, m, t)), 0))
        else:
            m = M.choose(m)
            k = M.ghost["mten"] = M.ghost.get("mten", 0) + 1
            free = [i for i in range(16) if not m >> i & 1]
            t = free[k * 7 % len(free)]
        M.events.append(("irg", m, t))
        return X.or_(64, split(p)[1], X.shl(64, t, 56))

    def asm(self, s, args, cons):
        """straightforward interpreter of the few instructions, on addresses with one common tag"""
        M = self.M
        cs = [c for c in cons.split(",") if not c.startswith("~")]
        outs = [c for c in cs if c.startswith("=")]
        regs = {}
        tag = 0
        vals = {}
        ins = cs[len(outs):]
        for k, (c, v) in enumerate(zip(ins, args)):
            t, p = split(v)
            p = M.choose(p)
            if not (t.__class__ is int and t == 0):
                if not (tag.__class__ is int and tag == 0) and not M.must(X.eq(64, tag, t)):
                    raise Unsupported("two tags in inline assembly")
                tag = t
                p |= 1 << 56           # stands for the tag
            i = int(c) if c.isdigit() else len(outs) + k
            vals["$%d" % i] = p
        code, labels, alias = [], {}, {}
        for l in re.split(r"[\n;]", s.replace("$$", "$")):
            l = l.strip()
            if not l or l.startswith(".arch") or l.startswith("//"):
                continue
            m = re.match(r"(\w+)\s+\.req\s+(\S+)$", l)
            if m:
                code.append(("req", m.group(1), m.group(2)))
                continue
            if l.startswith(".unreq"):
                code.append(("unreq", l.split()[1]))
                continue
            m = re.match(r"(\w+):\s*(.*)$", l)
            if m:
                labels.setdefault(m.group(1), []).append(len(code))
                l = m.group(2)
                if not l:
                    continue
            op, _, rest = l.partition(" ")
            code.append((op.lower(), [x.strip() for x in rest.split(",")]))

        def name(x):
            x = x.strip("[]")
            x = re.sub(r"^\$\{(\d+)(:\w)?\}$", r"$\1", x)
            return alias.get(x, x)

        def get(x):
            if x.startswith("#"):
                return int(x[1:], 0)
            x = name(x)
            return vals.get(x, 0)

        def put(x, v):
            vals[name(x)] = v & ((1 << 57) - 1)

        def target(l, pc):
            m = re.match(r"(\d+)([fb])$", l)
            if m:
                ps = labels[m.group(1)]
                return min(p for p in ps if p > pc) if m.group(2) == "f" else max(p for p in ps if p <= pc)
            return labels[l][0]
        # aliases are textual: resolve them in program order first
        pre = []
        for x in code:
            if x[0] == "req":
                alias[x[1]] = name(x[2])
                pre.append(None)
            elif x[0] == "unreq":
                alias.pop(x[1], None)
                pre.append(None)
            else:
                pre.append((x[0], [re.sub(r"\w+", lambda m: alias.get(m.group(0), m.group(0)), a) if a[:1] not in "#$" and not a.startswith("[$") else a for a in x[1]]))
        alias.clear()
        flags = 0
        pc, steps = 0, 0
        spans = []

        def zero_tag(a, n):
            if a & (1 << 56) == 0 and not (tag.__class__ is int and tag == 0):
                t = 0
            else:
                t = tag
            a &= LOW
            if spans and spans[-1][1] == a and spans[-1][2] is t:
                spans[-1][1] = a + n
            else:
                spans.append([a, a + n, t])
        while pc < len(pre):
            x = pre[pc]
            steps += 1
            if steps > 400000:
                raise Hang("inline assembly does not terminate")
            pc += 1
            if x is None:
                continue
            op, a = x
            if op == "mrs":
                if a[1].lower() != "dczid_el0":
                    raise Unsupported("system register " + a[1])
                put(a[0], M.ghost.get("dczid", 4))
            elif op in ("mov",):
                put(a[0], get(a[1]))
            elif op in ("tbnz", "tbz"):
                if bool(get(a[0]) >> get(a[1]) & 1) == (op == "tbnz"):
                    pc = target(a[2], pc - 1)
            elif op in ("add", "sub", "and", "orr", "bic", "lsl", "lsr", "cmp"):
                if op == "cmp":
                    a = [None] + a
                u, v = get(a[1]), get(a[2])
                if len(a) > 3:
                    sh, n = a[3].split()
                    v = v << get(n) if sh == "lsl" else v >> get(n)
                r = {"add": u + v, "sub": u - v, "and": u & v, "orr": u | v, "bic": u & ~v, "lsl": u << min(v, 64), "lsr": u >> v, "cmp": u - v}[op]
                if op == "cmp":
                    flags = r
                else:
                    put(a[0], r)
            elif op == "b":
                pc = target(a[0], pc - 1)
            elif op.startswith("b."):
                c = op[2:]
                if {"lt": flags < 0, "ge": flags >= 0, "le": flags <= 0, "gt": flags > 0, "eq": flags == 0, "ne": flags != 0, "lo": flags < 0, "hs": flags >= 0, "hi": flags > 0, "ls": flags <= 0}[c]:
                    pc = target(a[0], pc - 1)
            elif op == "stzg":
                if name(a[0]) != name(a[1]):
                    raise Unsupported("stzg with two registers")
                p = get(a[1])
                if p & 15:
                    M.segv(p & LOW, "align")
                zero_tag(p, 16)
                if len(a) > 2:
                    put(a[1], p + get(a[2]))
            elif op == "dc":
                if a[0].lower() != "gzva":
                    raise Unsupported("dc " + a[0])
                z = M.ghost.get("dczid", 4)
                if z & 16:
                    raise Unsupported("dc gzva while prohibited")
                n = 4 << (z & 15)
                p = get(a[1])
                zero_tag(p & ~(n - 1), n)
            elif op == "nop":
                pass
            else:
                raise Unsupported("instruction " + op)
        for p, e, t in spans:
            self.raw(self.memset0, p, 0, e - p)
            # pages not mapped for tagging keep no tags
            q = p
            while q < e:
                pe = min(e, (q | 4095) + 1)
                if self.enabled(q):
                    self.put(q, pe, t)
                q = pe
        self.M.events.append(("tagged", [tuple(x) for x in spans]))
        r = []
        for i in range(len(outs)):
            v = vals.get("$%d" % i, 0)
            r.append(X.or_(64, v & LOW, X.shl(64, tag, 56)) if v >> 56 else v)
        return r[0] if len(r) == 1 else tuple(r)


def install(M):
    M.mte = Mte(M)


@hook("__arm_mte_create_random_tag")
def h_irg(M, p, mask):
    return M.mte.irg(p, mask)
