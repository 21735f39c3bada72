"""hardened_malloc under the symbolic machine: builds, layout, initialised snapshot, API wrappers."""
import os
import shutil
import subprocess
import tempfile
import time
from . import build, env, expr as X, mte, solve as S
from .expr import E, MASK
from .machine import (Machine, load_program, init_memory, PathEnd, Fatal, Segv, Hang, Terminate, Violation, CxxThrow, Unsupported, PAGE,
                      TLS_BASE, STACK_TOP, ENOMEM)
from .env import set_errno, get_errno, stderr_text

NULL = 0


class Layout:
    def __init__(self, d):
        self.__dict__.update(d)

    def get(self, k, dflt=None):
        return self.__dict__.get(k, dflt)


def probe_layout(cfg, extra, cc=None):
    """compile constants of interest of the real source; names that no longer exist are dropped"""
    lines = build.PROBE.splitlines()
    d = tempfile.mkdtemp(prefix="hmprobe.")
    try:
        fl = build.defs(cfg, extra) + build.BASE

        def attempt(ls):
            src = os.path.join(d, "p.c")
            open(src, "w").write("\n".join(ls) + "\n")
            r = subprocess.run([build.CLANG, "-std=c17", "-w", "-O0", "-c", "-emit-llvm", "-S", "-ferror-limit=0", src, "-o", os.path.join(d, "p.ll")] + fl,
                               capture_output=True, text=True)
            return r
        for _ in range(6):
            r = attempt(lines)
            if r.returncode == 0:
                break
            bad = set()
            import re
            for m in re.finditer(r"p\.c:(\d+):\d+: error", r.stderr):
                bad.add(int(m.group(1)) - 1)
            if not bad:
                raise build.BuildError(r.stderr[-3000:])
            lines = ["" if i in bad else l for i, l in enumerate(lines)]
        else:
            raise build.BuildError("layout probe does not compile")
        import re
        out = {}
        txt = open(os.path.join(d, "p.ll")).read()
        for m in re.finditer(r"^@probe_(\w+) = (?:dso_local )?global i64 (-?\d+)", txt, re.M):
            out[m.group(1)] = int(m.group(2)) & MASK[64]
        return Layout(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


MACRO_SIZES = None


class Link:
    """fresh variable v standing for the result of one bounded draw; expr is the real code's result over the raw generator output"""
    __slots__ = ("v", "expr", "conds", "var", "bits")

    def __init__(self, v, expr, conds, var, bits):
        self.v, self.expr, self.conds, self.var, self.bits = v, expr, conds, var, bits


SURJ = {}


def raw_slice(r):
    """(variable, mask of its bits) when r is a slice of one generator output word"""
    if not isinstance(r, E):
        return None
    if r.op == "var":
        return r, MASK[r.w]
    if r.op == "extract" and isinstance(r.a[0], E) and r.a[0].op == "var":
        return r.a[0], MASK[r.w] << r.a[2]
    return None


def surjective(name, n, w, r, res, conds):
    """every value below n is the result of some raw draw that satisfies the accept conditions (decided on the real code's expression)"""
    g = X.var("rawdraw:%d" % w, w)
    var, bits = raw_slice(r)
    sh = (bits & -bits).bit_length() - 1
    x, xw = g, w
    if sh:
        x, xw = X.concat(x, xw, 0, sh), xw + sh
    if xw < var.w:
        x = X.concat(0, var.w - xw, x, xw)
    memo = {}
    rg = X.subst(res, {var: x}, memo)
    cg = tuple(X.subst(c, {var: x}, memo) for c in conds)
    k = (name, n, rg, cg)
    if k not in SURJ:
        ok = True
        for v in range(n):
            m = {g: ((((v + 1) << w) - 1) // n) & MASK[w]}
            memo2 = {}
            if X.ev(rg, m, memo2) != v or not all(X.ev(c, m, memo2) for c in cg):
                ok = False
                break
        if ok:
            # and no draw that is accepted gives a value outside the range
            ok = S.check(list(cg) + [X.uge(rg.w, rg, n)], 10)[0] == S.UNSAT
        SURJ[k] = ok
    return SURJ[k]


def solve_links(M, model):
    """model extended with generator outputs that produce the drawn values"""
    if not M.links:
        return model
    m = dict(model)
    for l in M.links:
        v = m.get(l.v, 0)
        old = m.get(l.var, 0) & ~l.bits
        w = bin(l.bits).count("1")
        sh = (l.bits & -l.bits).bit_length() - 1
        n = l.conds[0]
        m[l.var] = old | (((((v + 1) << w) - 1) // n) & MASK[w]) << sh
    for l in M.links:
        if X.ev(l.expr, m) != m.get(l.v, 0):
            raise Exception("draw link not satisfied")
    return m


def wrap_draws(hm):
    """bounded random draws: explore only draws accepted at once when M.fast_draws is set, and at most two rejections otherwise"""
    from .trans import pyname
    ns = hm.prog.ns
    r = []
    for n in ("get_random_u16_uniform", "get_random_u64_uniform"):
        key = pyname(n)
        if key not in ns or n not in hm.prog.defs:
            continue
        real = ns[key]

        def wrapped(M, *a, real=real, name=n):
            if M.draw_depth:
                return real(M, *a)
            if isinstance(a[-1], E):
                n = M.conc(a[-1])
                if n is not None:
                    a = a[:-1] + (n,)
            M.draw_depth = 1
            M.draw_count = 0
            M.raw = []
            M.last_n = a[-1] if isinstance(a[-1], int) else 0
            M.prefer0 = 1 if M.fast_draws else 0
            npc = len(M.pc)
            try:
                v = real(M, *a)
            finally:
                M.prefer0 = 0
                M.draw_depth = 0
            if M.fast_draws and len(M.raw) == 1 and isinstance(v, E):
                return link(M, name, a, v, M.raw[0], npc)
            return v
        ns[key] = wrapped
        r.append(n)

    def link(M, name, a, v, raw, npc):
        n = a[-1]
        sl = raw_slice(raw)
        if sl is None:
            # exact: earlier abstracted draws from the same output are tied to it, later ones stay exact
            for x in X.varsof(raw):
                if M.linkbits.get(x, 0):
                    for l in M.links:
                        if l.var is x:
                            M.assume(X.eq(l.v.w, l.v, X.trunc(l.v.w, l.expr)))
                M.linkbits[x] = X.MASK[x.w]
            return v
        var, bits = sl
        used = M.linkbits.get(var, 0)
        conds = M.pc[npc:]
        if used & bits:
            # the same generator output a second time: no new choice
            for l in M.links:
                if l.var is var and l.bits & bits:
                    M.assume(X.eq(l.v.w, l.v, X.trunc(l.v.w, l.expr)))
            M.linkbits[var] = used | bits
            return v
        if not isinstance(n, int) or not 1 < n <= 4096:
            if isinstance(n, int) and n > 4096:
                M.linkbits[var] = used | bits
            return v
        if any(X.varsof(c) - X.varsof(raw) for c in conds):
            return v
        if not surjective(name, n, raw.w, raw, v, conds):
            return v
        w = max((n - 1).bit_length(), 1)
        del M.pc[npc:]
        nv = M.frange("draw", n - 1)
        M.linkbits[var] = used | bits
        M.links.append(Link(nv, X.trunc(w, v), (n,), var, bits))
        if nv not in M.model:
            M.model[nv] = X.ev(v, M.model)
        if n <= M.enum_draws:
            return M.choose(X.zext(v.w, nv))
        return X.zext(v.w, nv)

    for n in ("get_random_u16", "get_random_u64"):
        key = pyname(n)
        if key not in ns or n not in hm.prog.defs:
            continue
        real2 = ns[key]

        def counted(M, *a, real=real2):
            if M.draw_depth:
                M.draw_count += 1
                if M.draw_count > M.max_draws:
                    raise PathEnd("assume: more rejected draws in a row than the bound")
                v = real(M, *a)
                M.raw.append(v)
                if M.fast_draws and len(M.trace) >= len(M.prefix):
                    # a draw that is accepted at once: the largest value (after a rejection: the smallest)
                    sl = raw_slice(v)
                    if sl is not None and not M.linkbits.get(sl[0], 0) & sl[1]:
                        md = dict(M.model)
                        o = md.get(sl[0], 0)
                        md[sl[0]] = (o | sl[1]) if M.draw_count == 1 else (o & ~sl[1])
                        if all(X.ev(c, md) for c in M.pc if sl[0] in X.varsof(c)):
                            M.model = md
                    elif sl is None and isinstance(v, E) and M.draw_count == 1:
                        # output assembled from several generator words (the stream is not word aligned): the bits not drawn before are set
                        vs = X.varsof(v)
                        md = dict(M.model)
                        for x in vs:
                            md[x] = md.get(x, 0) | (X.MASK[x.w] & ~M.linkbits.get(x, 0))
                        if all(X.ev(c, md) for c in M.pc if X.varsof(c) & vs):
                            M.model = md
                return v
            return real(M, *a)
        ns[key] = counted
    return r


class HM:
    """one configuration of the allocator, loaded and (optionally) initialised"""

    def __init__(self, cfg, extra=(), cxx=False, name="", more=(), real_chacha=False):
        t0 = time.time()
        self.cfg = cfg
        self.extra = list(extra)
        self.name = name
        self.cxx = cxx
        d, outs = build.build(cfg, extra, cxx, more)
        try:
            hooks = dict(env.HOOKS)
            if real_chacha:
                hooks.pop("chacha_keystream_bytes")
            self.prog = load_program(outs, hooks)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        self.lay = probe_layout(cfg, extra)
        self.M = Machine(self.prog)
        self.M.hooks = hooks
        if "-DHAS_ARM_MTE" in extra:
            mte.install(self.M)
        init_memory(self.M)
        self.draws = wrap_draws(self)
        self.zero_snap = self.M.snap()
        self.init_snap = None
        self.t_build = time.time() - t0
        self.sizes, self.slots = read_tables(self)
        self.nclass = len(self.sizes)
        self.canary = 8 if cfg["SLAB_CANARY"] == "true" else 0
        self.ext = cfg["CONFIG_EXTENDED_SIZE_CLASSES"] == "true"
        self.maxslab = self.sizes[-1] if self.sizes else (131072 if self.ext else 16384)
        self.narena = int(cfg["N_ARENA"])
        self.zof = cfg["ZERO_ON_FREE"] == "true"
        self.waf = cfg["WRITE_AFTER_FREE_CHECK"] == "true"
        self.qr = int(cfg["SLAB_QUARANTINE_RANDOM_LENGTH"])
        self.qq = int(cfg["SLAB_QUARANTINE_QUEUE_LENGTH"])
        self.rqr = int(cfg["REGION_QUARANTINE_RANDOM_LENGTH"])
        self.rqq = int(cfg["REGION_QUARANTINE_QUEUE_LENGTH"])
        self.rqskip = int(cfg["REGION_QUARANTINE_SKIP_THRESHOLD"])
        self.guard_int = int(cfg["GUARD_SLABS_INTERVAL"])
        self.guard_div = int(cfg["GUARD_SIZE_DIVISOR"])
        self.crs = int(cfg["CONFIG_CLASS_REGION_SIZE"])
        self.stats = cfg["CONFIG_STATS"] == "true"
        self.fsq = int(cfg["FREE_SLABS_QUARANTINE_RANDOM_LENGTH"])
        self.slab_start = None

    # ------------------------------------------------------------------ initialisation
    def boot(self):
        """initialise through the first malloc/free pair exactly like the library constructor does"""
        M = self.M
        M.restore(self.zero_snap)
        M.events.append(("call", "h_malloc", (16,), 0))
        p = self.call0("h_malloc", 16)
        M.events.append(("ret", p, 64))
        if isinstance(p, E) or p == 0:
            raise Exception("initialisation failed in the model")
        self.first = p
        self.find_layout()
        M.events.append(("call", "h_free", (p,), 0))
        self.call0("h_free", p)
        M.events.append(("ret", 0, 0))
        self.boot_events = list(M.events)
        self.init_snap = M.snap()
        return self

    def tls_image(self):
        """initial thread-local storage as (offset, bytes, value)"""
        p = self.prog
        out = [(o, 8, 0) for o in range(0, (p.tls_size + 7) & ~7, 8)]
        for off, m, init, t in p.tls_init:
            o = []
            p.flat(m, t, p.const(m, init), 0, o)
            out += [(off + a, n, v) for a, n, v in o]
        return out

    def find_layout_from_boot(self):
        """geometry from a throw-away initialisation, machine left uninitialised"""
        self.boot()
        self.M.restore(self.zero_snap)

    def find_layout(self):
        """slab region and allocator state from the system calls of initialisation"""
        M = self.M
        big = []
        for e in M.events:
            if e[0] == "mmap" and e[-1] == 0:
                e = tuple(M.conc(x) if isinstance(x, E) else x for x in e)
                if isinstance(e[2], int) and isinstance(e[5], int):
                    big.append(e)
        reg = max(big, key=lambda e: e[2])
        self.slab_start = reg[5]
        self.slab_end = reg[5] + reg[2]
        lay = self.lay
        if lay.get("slab_region_size"):
            for e in big:
                if e[2] == lay.slab_region_size:
                    self.slab_start, self.slab_end = e[5], e[5] + e[2]
        self.state = None
        if lay.get("sizeof_allocator_state"):
            best = None
            for e in big:
                if e[5] == self.slab_start:
                    continue
                if e[2] >= lay.sizeof_allocator_state:
                    best = e
            if best:
                g = (best[2] - lay.sizeof_allocator_state) // 2
                self.state = best[5] + g
                self.state_guard = g
                self.state_map = (best[5], best[5] + best[2])

    # ------------------------------------------------------------------ API
    def call0(self, name, *args):
        f = self.M.fn(name)
        if name[:2] == "_Z":      # unused reference arguments (nothrow) may be given or left out
            n = f.__code__.co_argcount - 1
            args = (args + (0,) * n)[:n]
        return f(self.M, *args)

    def fnaddr(self, name):
        for k, v in self.prog.fnaddr.items():
            if v.split("@")[0] == name:
                return k
        return None

    # geometry (from the documented size classes)
    def cls_of_ptr(self, p):
        off = p - self.slab_start
        asz = self.real * self.nclass
        return off // asz, (off % asz) // self.real

    @property
    def real(self):
        return self.crs * 2

    def size_of(self, c):
        return self.sizes[c] or 16

    def slab_size(self, c):
        return (self.slots[c] * self.size_of(c) + 4095) & ~4095

    def sc(self, arena, c):
        return self.state + (arena * self.nclass + c) * self.lay.sizeof_size_class

    def rd(self, a, n=8):
        """read memory regardless of protection"""
        w = a & ~7
        v = self.M.rdword(w)
        if n == 8:
            return v
        return X.extract(v, 8 * (a & 7) + 8 * n - 1, 8 * (a & 7))

    def wr(self, a, v, n=8):
        from .machine import merge
        wa = a & ~7
        if n != 8:
            v = merge(self.M.rdword(wa), v, a & 7, n)
        if self.M.slog and self.M._slogged(wa, wa + 8):
            from .machine import Wd
            self.M.slog.append(Wd(wa, v))
        else:
            self.M.wrbase(wa, v)


DOC_SIZES = [0] + list(range(16, 129, 16)) + [160, 192, 224, 256, 320, 384, 448, 512, 640, 768, 896, 1024, 1280, 1536, 1792, 2048, 2560, 3072, 3584, 4096,
                                            5120, 6144, 7168, 8192, 10240, 12288, 14336, 16384, 20480, 24576, 28672, 32768, 40960, 49152, 57344, 65536,
                                            81920, 98304, 114688, 131072]


def doc_sizes(ext):
    return DOC_SIZES if ext else [s for s in DOC_SIZES if s <= 16384]


def read_tables(hm):
    """slot counts per class from the source's own table (geometry only); sizes are the documented ones"""
    ext = hm.cfg["CONFIG_EXTENDED_SIZE_CLASSES"] == "true"
    sizes = doc_sizes(ext)
    M = hm.M
    slots = None
    for k, a in hm.prog.sym.items():
        if k.split("@")[0] == "size_class_slots":
            slots = [X.extract(M.rdword((a + 2 * i) & ~7), 8 * ((a + 2 * i) & 7) + 15, 8 * ((a + 2 * i) & 7)) for i in range(len(sizes))]
    if slots is None:
        slots = [256, 256, 128, 85, 64, 51, 42, 36, 64, 51, 64, 54, 64] + [64] * 8 + [16] * 4 + [8] * 8 + [6, 5, 4, 4] + [1] * 12
        slots = slots[:len(sizes)]
    return sizes, slots
