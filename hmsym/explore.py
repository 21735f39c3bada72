"""Path exploration of scenarios: every scenario is a Python function over a Ctx; it is re-executed once per feasible path of the
real code (and of its own symbolic choices) and its obligations are discharged by the solver on each."""
import random
import time
import traceback
from . import expr as X, solve as S, env
from .expr import E, MASK
from .machine import (PathEnd, Fatal, Segv, Hang, Terminate, CxxThrow, Violation, Unsupported, TLS_BASE)
from .env import stderr_text, get_errno, set_errno
from . import replay as R
from .hm import solve_links

# return width of the exported functions (bits); everything else returns a pointer or size
RETW = {"h_free": 0, "h_free_sized": 0, "h_free_aligned_sized": 0, "h_cfree": 0, "h_posix_memalign": 32, "h_malloc_trim": 32, "h_mallopt": 32, "h_malloc_info": 32, "h_malloc_stats": 0,
        "h_malloc_disable": 0, "h_malloc_enable": 0, "h_malloc_iterate": 32, "h_malloc_set_state": 32, "@prepare": 0, "@parent": 0, "@child": 0, "h_malloc_disable_memory_tagging": 8,
        "h_malloc_initialize": 32, "h_malloc_get_state": 64, "get_random_u16": 16, "get_random_u16_uniform": 16, "get_random_u64": 64, "get_random_u64_uniform": 64, "get_random_bytes": 0,
        "random_state_init": 0, "random_state_init_from_random_state": 0, "chacha_keysetup": 0, "chacha_ivsetup": 0, "chacha_keystream_bytes": 0}


def retw(name):
    if name in RETW:
        return RETW[name]
    if name.startswith("_Zd"):
        return 0
    return 64


class Stop(Exception):
    """scenario ends this path normally"""


class Ctx:
    def __init__(self, hm, params=None):
        self.hm = hm
        self.M = hm.M
        self.params = params or {}
        self.reached = {}
        self.info = {}

    # ---------------- values
    def var(self, name, w=64):
        return self.M.fresh(name, w)

    def size(self, name, lo, hi):
        """symbolic value in [lo, hi]"""
        M = self.M
        span = hi - lo
        if span == 0:
            return lo
        v = M.frange(name, span)
        return X.add(64, lo, X.zext(64, v)) if v.w < 64 else X.add(64, lo, v)

    def flag(self, name):
        return self.M.fresh(name, 1)

    def pick(self, name, n):
        """fork: concrete index in range(n)"""
        if n == 1:
            return 0
        return self.M.choose(self.size(name, 0, n - 1))

    # ---------------- calls
    def call(self, name, *args):
        """call an exported function; exceptions of the code propagate (a fatal error here is unexpected)"""
        M = self.M
        M.events.append(("call", name, args))
        if name[0] == "@":
            a = M.atfork[{"@prepare": 0, "@parent": 1, "@child": 2}[name]]
            r = M.icall(a, ()) if a else 0
        else:
            r = self.hm.call0(name, *args)
        w = retw(name)
        M.events.append(("ret", 0 if r is None else r, w))
        self.reached["call:" + name] = self.reached.get("call:" + name, 0) + 1
        return r

    def attempt(self, name, *args):
        """returns (kind, value): ("ret", v) | ("fatal", msg) | ("segv", addr) | ("hang", msg) | ("throw", typeinfo) | ("terminate", "")"""
        M = self.M
        locks = dict(M.locks)
        try:
            return "ret", self.call(name, *args)
        except CxxThrow as e:
            M.events.append(("throw",))
            return "throw", e.ti
        except (Fatal, Segv, Hang, Terminate) as e:
            self.end_event(e)
            if isinstance(e, Fatal):
                return "fatal", fatal_text(e.msg)
            if isinstance(e, Segv):
                return "segv", e.addr
            if isinstance(e, Hang):
                return "hang", str(e)
            return "terminate", ""

    def end_event(self, e):
        M = self.M
        if isinstance(e, Fatal):
            M.events.append(("fatal", e.msg))
        elif isinstance(e, Segv):
            a = e.addr if e.addr != 0 else None
            # an address derived from a global variable (out of range index): the library's image lies elsewhere in the real process
            if isinstance(a, int) and a > 4096 and not any(s[4] not in ("rodata", "data", "tls") and s[0] - (1 << 36) < a < s[1] + (1 << 36) for s in M.segs):
                a = None
            M.events.append(("segv", a, e.end))
        elif isinstance(e, Hang):
            M.events.append(("hang",))
        elif isinstance(e, Terminate):
            M.events.append(("terminate",))

    # ---------------- user memory
    def rd(self, a, n=1):
        """the program reads its memory (checked access)"""
        v = self.M.load(a, n)
        self.M.events.append(("peek", a, n, v))
        return v

    def wr(self, a, v, n=1):
        self.M.store(a, n, v)
        self.M.events.append(("poke", a, n, v))

    def raw(self, a, n=8):
        return self.hm.rd(a, n)

    def prot(self, a):
        """protection bits at a concrete address (recorded for the replay)"""
        s = self.M.seg_at(a) if not self.M.plog else None
        p = (self.M._pk(s[2], s[3]) & 3 if s else 0) if not self.M.plog else self.M.prot(a >> 12) & 3
        self.M.events.append(("prot", a & ~4095, p))
        return p

    def errno(self):
        v = get_errno(self.M)
        self.M.events.append(("errno?", v))
        return v

    def set_errno(self, v):
        set_errno(self.M, v)
        self.M.events.append(("errno=", v))

    # ---------------- obligations
    def prove(self, c, msg):
        self.M.prove(c, msg)

    def fail(self, msg):
        raise Violation(msg, dict(self.M.model))

    def assume(self, c):
        self.M.assume(c)

    def must(self, c):
        return self.M.must(c)

    def branch(self, c):
        return self.M.decide(c)

    def reach(self, tag):
        self.reached[tag] = self.reached.get(tag, 0) + 1

    # ---------------- environment
    def symbolic_random(self, on=True):
        self.M.ghost["ksmode"] = on

    def thread(self, t):
        """switch the running thread between calls"""
        M = self.M
        if M.tid != t:
            if M.ghost.get("pkeys"):       # rights are per thread; a new thread starts without access
                M.ghost["pkru"] = dict(M.ghost.get("pkru", {}), **{str(M.tid): M.pkru})
                M.set_pkru(M.ghost["pkru"].get(str(t), 2))
            M.tid = t
            self.M.events.append(("thread", t))

    def newthread(self):
        """a thread which never ran before (takes the place of the previous one made this way)"""
        from .machine import TLS_BASE, put_bytes
        M = self.M
        t = 7
        n = M.ghost["nthread"] = M.ghost.get("nthread", 16) + 1
        for off, w, v in self.hm.tls_image():
            M.store(TLS_BASE + t * 0x10000 + off, w, v)
        M.tid = t
        M.events.append(("thread", n))
        return n

    def ok_kernel(self):
        if self.M.kviol:
            self.fail("kernel interaction: %s %s" % (self.M.kviol[0][0], tuple(hx(x) for x in self.M.kviol[0][1:])))


def hx(v):
    return hex(v) if isinstance(v, int) else "<symbolic>"


def fatal_text(msg):
    p = "fatal allocator error: "
    m = msg.strip("\n")
    return m[len(p):] if m.startswith(p) else m


class Result:
    def __init__(self):
        self.paths = 0
        self.abandoned = 0
        self.obligations = 0
        self.decisions = 0
        self.violations = []
        self.inconclusive = {}
        self.reached = {}
        self.exhausted = True
        self.errors = []
        self.samples = []
        self.traces = []
        self.wall = 0.0


def explore(hm, scen, params=None, snap=None, budget=30.0, max_paths=100000, keep_traces=1, max_viol=2):
    M = hm.M
    r = Result()
    t0 = time.time()
    snap = snap or hm.init_snap
    work = [([], {})]
    rnd = random.Random(env.SEED)
    M.work = work
    o0, d0 = M.nobl, M.ndec
    M.deadline = t0 + budget * 1.3 + 2
    solver_left = lambda: max(1.0, min(20.0, budget - (time.time() - t0)))
    while work:
        if time.time() - t0 > budget or r.paths + r.abandoned >= max_paths:
            r.exhausted = False
            break
        if len(work) > 8 and rnd.random() < 0.5:
            j = rnd.randrange(len(work))
            work[j], work[-1] = work[-1], work[j]
        prefix, model = work.pop()
        M.restore(snap)
        M.pc = []
        M.prefix = prefix
        M.model = model
        M.trace = []
        M.proved = {}
        M.nonuniq = set()
        M.inconclusive = []
        M.watch = None
        M.sched = None
        M.exc = None
        M.prefer0 = 0
        M.links = []
        M.defs = {}
        M.last_n = 0
        M.enum_draws = (params or {}).get("enum", 0)
        M.fast_draws = (params or {}).get("fast", True)
        M.linkbits = {}
        M.raw = []
        M.draw_depth = 0
        M.timeout = solver_left()
        ctx = Ctx(hm, params)
        viol = None
        ended = False
        try:
            scen(ctx)
            ended = True
        except Stop:
            ended = True
        except PathEnd as e:
            r.abandoned += 1
            if "limit" in str(e):
                r.exhausted = False
                r.inconclusive[str(e)] = r.inconclusive.get(str(e), 0) + 1
        except Violation as e:
            viol = (e.msg, e.model)
        except Fatal as e:
            ctx.end_event(e)
            viol = ("unexpected abort: " + fatal_text(e.msg), dict(M.model))
        except Segv as e:
            ctx.end_event(e)
            viol = ("unexpected fault (%s)" % e, dict(M.model))
        except Hang as e:
            ctx.end_event(e)
            viol = ("unexpected hang: %s" % e, dict(M.model))
        except Terminate as e:
            ctx.end_event(e)
            viol = ("unexpected std::terminate", dict(M.model))
        except CxxThrow as e:
            M.events.append(("throw",))
            viol = ("unexpected exception", dict(M.model))
        except Unsupported as e:
            r.errors.append("unsupported: %s" % e)
            r.inconclusive["unsupported"] = r.inconclusive.get("unsupported", 0) + 1
        for x in M.inconclusive:
            r.inconclusive[x] = r.inconclusive.get(x, 0) + 1
        for k, v in ctx.reached.items():
            r.reached[k] = r.reached.get(k, 0) + v
        if ended:
            r.paths += 1
            if len(r.samples) < 3 and ctx.info:
                r.samples.append({k: show(v, M.model) for k, v in ctx.info.items()})
            if len(r.traces) < keep_traces:
                try:
                    r.traces.append(R.script(M.events, solve_links(M, M.model)))
                except Exception as e:
                    r.errors.append("no script: %s" % e)
        if viol:
            r.paths += 1
            msg, model = viol
            vals = {k: show(v, model) for k, v in ctx.info.items()}
            try:
                sc = R.script(M.events, solve_links(M, model))
            except Exception as e:
                sc = ["# no script: %s" % e]
            r.violations.append((msg, vals, sc))
            if len(r.violations) >= max_viol:
                r.exhausted = False
                break
    M.deadline = 1e18
    r.obligations = M.nobl - o0
    r.decisions = M.ndec - d0
    r.wall = time.time() - t0
    return r


def show(v, model):
    if isinstance(v, E):
        v = X.ev(v, model)
    if isinstance(v, int):
        return hex(v) if v > 9 else v
    if isinstance(v, (list, tuple)):
        return [show(x, model) for x in v]
    return v
