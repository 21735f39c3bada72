"""Check runner: explores the tasks of one property in parallel, replays counterexamples and sampled traces natively, writes evidence."""
import importlib
import json
import os
import pickle
import resource
import signal
import sys
import tempfile
import time
import traceback
from . import build, env, replay, solve as S
from .hm import HM
from .explore import explore, Ctx, Result
from .machine import Violation, Fatal, Segv, Hang, Terminate, CxxThrow

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("HM_JOBS", "8"))


class Cfg:
    """one build configuration of the real sources"""

    def __init__(self, variant="default", extra=(), cxx=False, real_chacha=False, more=(), native=True, name=None, **over):
        self.variant, self.extra, self.cxx, self.real_chacha, self.more, self.native = variant, tuple(extra), cxx, real_chacha, tuple(more), native
        self.over = over
        self.macros = build.config(variant, **over)
        self.key = (variant, tuple(sorted(over.items())), self.extra, cxx, real_chacha, self.more, native)
        self.name = name or (variant + "".join(",%s=%s" % kv for kv in sorted(over.items())) + "".join("," + e for e in extra) +
                             (",c++" if cxx else "") + (",chacha" if real_chacha else ""))

    def hm(self):
        h = HM(self.macros, self.extra, cxx=self.cxx, name=self.name, more=self.more, real_chacha=self.real_chacha)
        return h


class Task:
    def __init__(self, name, cfg, scen, params=None, setup=None, budget=20.0, boot=True, reach=(), max_paths=100000, post=None, weight=None, must_exhaust=False, pre=None):
        self.name, self.cfg, self.scen, self.params, self.setup = name, cfg, scen, params or {}, setup
        self.budget, self.boot, self.reach, self.max_paths, self.post = budget, boot, tuple(reach), max_paths, post
        self.weight = weight or budget
        self.pre = pre


class Prop:
    def __init__(self, id, bounds=(), assumptions=(), level="model_checking"):
        self.id, self.bounds, self.assumptions, self.level = id, list(bounds), list(assumptions), level


def cov_functions(hm):
    r = {}
    for i, n in enumerate(hm.prog.cov_names):
        t = r.setdefault(n.split("@")[0], [0, 0])
        t[1] += 1
        t[0] += hm.M.cov[i]
    return {k: v for k, v in r.items() if v[0]}


def run_task(task, hm):
    """in the child: set-up, exploration; returns a picklable dict"""
    t0 = time.time()
    S.stats.__init__()
    M = hm.M
    setup_info = None
    M.prefix, M.model, M.trace, M.proved, M.pc, M.work = [], {}, [], {}, [], None
    params = task.params
    ctx = Ctx(hm, task.params)
    try:
        if task.boot:
            hm.boot()
            snap = hm.init_snap
        else:
            hm.find_layout_from_boot()
            snap = hm.zero_snap
        M.restore(snap)
        M.prefix, M.model, M.trace, M.proved, M.pc, M.work = [], {}, [], {}, [], None
        if task.setup:
            setup_info = task.setup(ctx)
            snap = M.snap()
            params = dict(task.params, st=setup_info)
    except (Violation, Fatal, Segv, Hang, Terminate, CxxThrow) as e:
        # the concrete set-up already breaks the property
        if isinstance(e, Violation):
            msg = e.msg
        else:
            ctx.end_event(e)
            msg = "unexpected %s in the set-up: %s" % (e.__class__.__name__.lower(), e)
        r = Result()
        try:
            sc = replay.script(M.events, {})
        except Exception as x:
            sc = ["# no script: %s" % x]
        return dict(name=task.name, cfg=task.cfg.key, paths=1, abandoned=0, obligations=1, decisions=0, violations=[(msg, {}, sc)], inconclusive={}, reached={}, exhausted=False,
                    errors=[], samples=[], traces=[], missing=[], wall=round(time.time() - t0, 2), setup=0, stats=S.stats.d(), funcs=cov_functions(hm), exported=[])
    ts = time.time() - t0
    r = explore(hm, task.scen, params, snap=snap, budget=task.budget, max_paths=task.max_paths, keep_traces=1)
    viol = list(r.violations)
    if task.post and not viol:
        try:
            for msg in task.post(r, hm) or ():
                viol.append((msg, {}, r.traces[0] if r.traces else []))
        except Exception:
            r.errors.append("post: " + traceback.format_exc(limit=3))
    missing = [x for x in task.reach if not r.reached.get(x)]
    return dict(name=task.name, cfg=task.cfg.key, paths=r.paths, abandoned=r.abandoned, obligations=r.obligations, decisions=r.decisions, violations=viol,
                inconclusive=r.inconclusive, reached=r.reached, exhausted=r.exhausted, errors=r.errors[:3], samples=r.samples[:1], traces=r.traces[:1],
                missing=missing, wall=round(time.time() - t0, 2), setup=round(ts, 2), stats=S.stats.d(), funcs=cov_functions(hm),
                exported=[n.split("@")[0] for n in hm.prog.defs])


def native_jobs(cfgs, fns):
    pass


class Child:
    def __init__(self, fn, limit, mem=False):
        self.f = tempfile.TemporaryFile(prefix="hmres.")
        sys.stdout.flush()
        sys.stderr.flush()
        self.t = time.time()
        self.limit = limit
        self.pid = os.fork()
        if self.pid == 0:
            try:
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30)) if mem else None
                    r = fn()
                except MemoryError:
                    r = {"error": "out of memory"}
                except BaseException:
                    r = {"error": traceback.format_exc(limit=-4)}
                b = pickle.dumps(r)
                self.f.seek(0)
                self.f.write(b)
                self.f.flush()
            finally:
                os._exit(0)

    def result(self):
        self.f.seek(0)
        b = self.f.read()
        self.f.close()
        if not b:
            return {"error": "worker died"}
        return pickle.loads(b)


def pool(jobs, n=NPROC):
    """jobs: list of (key, fn, limit); yields key -> result"""
    jobs = list(jobs)
    live = {}
    res = {}
    while jobs or live:
        while jobs and len(live) < n:
            k, fn, limit = jobs.pop(0)
            c = Child(fn, limit, k[0] == "task")
            live[c.pid] = (k, c)
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            now = time.time()
            for p, (k, c) in list(live.items()):
                if now - c.t > c.limit:
                    try:
                        os.kill(p, signal.SIGKILL)
                    except OSError:
                        pass
                    c.limit = 1e9
            time.sleep(0.01)
            continue
        if pid in live:
            k, c = live.pop(pid)
            res[k] = c.result()
    return res


def build_native(cfg, fns, d):
    replay.Native(cfg.macros, cfg.extra, cfg.cxx, cfg.real_chacha, fns, dir=d)
    return True


def known_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                r.append(l[8:].strip())
    return r


def main(argv):
    ids = [a for a in argv if not a.startswith("-")]
    pid = ids[0]
    only = ids[1] if len(ids) > 1 else None
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in argv:
        if a == "--thorough":
            tier = "thorough"
    verbose = "-v" in argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    env.SEED = seed
    t0 = time.time()
    mod = importlib.import_module("props." + pid.lower())
    prop = mod.PROP
    tasks = mod.tasks(tier, seed)
    if only:
        tasks = [t for t in tasks if only in t.name]
    ev = dict(property=pid, tier=tier, seed=seed, level=prop.level, coverage={}, assumptions=prop.assumptions, wall_s=0.0, violations=0)
    evp = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    try:
        cfgs = {}
        for t in tasks:
            cfgs.setdefault(t.cfg.key, t.cfg)
        hms = {k: c.hm() for k, c in cfgs.items()}
    except build.BuildError as e:
        print("the sources do not build: %s" % str(e)[-1500:])
        print("ERROR: cannot encode the current sources")
        return 2
    tb = time.time() - t0
    tasks.sort(key=lambda t: -t.weight)
    ndirs = {k: tempfile.mkdtemp(prefix="hmnative.") for k, c in cfgs.items() if c.native}
    fns = {k: native_fns(hms[k]) for k in ndirs}
    jobs = [(("native", k), (lambda k=k: build_native(cfgs[k], fns[k], ndirs[k])), 120) for k in ndirs]
    jobs += [(("task", i), (lambda t=t: run_task(t, hms[t.cfg.key])), t.budget * 2 + 60) for i, t in enumerate(tasks)]
    rc = 0
    try:
        res = pool(jobs)
        natives = {}
        for k, d in ndirs.items():
            r = res[("native", k)]
            if r is True:
                natives[k] = replay.Native.at(d)
            else:
                print("native build of %s failed: %s" % (cfgs[k].name, r))
        rs = []
        for i, t in enumerate(tasks):
            r = res[("task", i)]
            if "error" in r:
                print("task %s: %s" % (t.name, r["error"]))
                r = dict(name=t.name, cfg=t.cfg.key, paths=0, abandoned=0, obligations=0, decisions=0, violations=[], inconclusive={"task failed": 1}, reached={}, exhausted=False,
                         errors=[r["error"][-600:]], samples=[], traces=[], missing=list(t.reach), wall=0, setup=0, stats=S.stats.__class__().d(), funcs={}, exported=[])
            rs.append(r)
        # native validation of sampled paths
        vjobs = []
        for i, r in enumerate(rs):
            if tasks[i].cfg.key in natives:
                for j, tr in enumerate(r["traces"]):
                    vjobs.append((("tr", i, j), (lambda n=natives[tasks[i].cfg.key], tr=tr: n.run(tr)), 120))
                for j, v in enumerate(r["violations"]):
                    vjobs.append((("vi", i, j), (lambda n=natives[tasks[i].cfg.key], tr=v[2]: n.run(tr)), 120))
        vres = pool(vjobs)
        ok = bad = 0
        mism = []
        for k, v in vres.items():
            if k[0] == "tr":
                if v is not True and isinstance(v, tuple) and v[0]:
                    ok += 1
                else:
                    bad += 1
                    mism.append("%s: %s" % (rs[k[1]]["name"], (v[1] if isinstance(v, tuple) else v["error"])[-300:]))
        known = known_findings()
        nviol = 0
        unconfirmed = []
        shown = set()
        for i, r in enumerate(rs):
            for j, (msg, vals, script) in enumerate(r["violations"]):
                v = vres.get(("vi", i, j))
                conf = v[0] if isinstance(v, tuple) else (None if tasks[i].cfg.key not in natives else False)
                out = v[1] if isinstance(v, tuple) else ""
                if conf is False:
                    unconfirmed.append("%s: %s (%s)" % (r["name"], msg, out[-300:] if isinstance(out, str) else out))
                    continue
                kf = [f for f in known if f.startswith("property=%s " % pid) and ("task=%s " % r["name"]) in f + " " and f.split(" what=", 1)[-1] in msg]
                if kf:
                    if kf[0] not in shown:
                        print("KNOWN-FINDING: %s" % kf[0])
                        shown.add(kf[0])
                    continue
                nviol += 1
                rp = os.path.join(VERIF, "evidence", "%s.violation%d.txt" % (pid, nviol))
                with open(rp, "w") as f:
                    f.write("# property %s task %s\n# %s\n# values: %s\n# configuration: %s\n# native replay: %s\n" % (
                        pid, r["name"], msg, vals, tasks[i].cfg.name,
                        "no native counterpart" if conf is None else out.strip().replace("\n", "\n#   ")))
                    f.write("# rerun: python3-vt %s/check.py --replay %s\n" % (VERIF, rp))
                    f.write("#cfg %s\n" % json.dumps(dict(variant=tasks[i].cfg.variant, over=tasks[i].cfg.over, extra=list(tasks[i].cfg.extra), cxx=tasks[i].cfg.cxx, real_chacha=tasks[i].cfg.real_chacha)))
                    f.write("\n".join(script) + "\n")
                print("task %s: %s %s" % (r["name"], msg, vals))
                print("VIOLATION property=%s replay=%s" % (pid, rp))
                rc = 1
        write_evidence(ev, evp, prop, tasks, rs, hms, ok, bad, mism, unconfirmed, nviol, t0, tb, cfgs)
        for u in unconfirmed:
            print("not reproduced natively (not reported): " + u)
        for m in mism:
            print("trace mismatch: " + m)
        inc = {}
        for r in rs:
            for k, v in r["inconclusive"].items():
                inc[k] = inc.get(k, 0) + v
            for x in r["errors"]:
                print("%s: %s" % (r["name"], x))
            if r["missing"]:
                print("%s: not reached: %s" % (r["name"], r["missing"]))
        if verbose:
            for r in sorted(rs, key=lambda r: -r["wall"]):
                print("  %-40s %5d paths %4d abandoned %6d obl %6.1fs (setup %.1f) q=%d solver=%.1f %s %s" % (r["name"], r["paths"], r["abandoned"], r["obligations"], r["wall"], r["setup"],
                      r["stats"]["queries"], r["stats"]["solver_s"], "" if r["exhausted"] else "NOT EXHAUSTED", r["inconclusive"] or ""))
        print("%s %s: %d tasks, %d paths, %d obligations, %d violations, %d/%d traces validated, %d not exhausted, inconclusive %s, %.1fs" % (
            pid, tier, len(rs), sum(r["paths"] for r in rs), sum(r["obligations"] for r in rs), nviol, ok, ok + bad,
            sum(not r["exhausted"] for r in rs), inc, time.time() - t0))
    finally:
        import shutil
        for d in ndirs.values():
            shutil.rmtree(d, ignore_errors=True)
    return rc


def native_fns(hm):
    r = []
    for n in hm.prog.defs:
        b = n.split("@")[0]
        if n != b:
            continue
        if b.startswith("h_") or b.startswith("_Zn") or b.startswith("_Zd") or b in ("get_random_u16", "get_random_u16_uniform", "get_random_u64", "get_random_u64_uniform", "get_random_bytes",
                                                                                     "random_state_init", "random_state_init_from_random_state", "chacha_keysetup", "chacha_ivsetup", "chacha_keystream_bytes"):
            if b.startswith("h_mallinfo") and b not in ("h_mallinfo_narenas", "h_mallinfo_nbins"):
                continue
            r.append(b)
    for a in hm.prog.aliases if hasattr(hm.prog, "aliases") else ():
        pass
    return r


def write_evidence(ev, evp, prop, tasks, rs, hms, ok, bad, mism, unconfirmed, nviol, t0, tb, cfgs):
    funcs = {}
    for r in rs:
        for k, (a, b) in r["funcs"].items():
            o = funcs.get(k, [0, b])
            funcs[k] = [max(o[0], a), b]
    st = {}
    for r in rs:
        for k, v in r["stats"].items():
            st[k] = st.get(k, 0) + v
    reached = {}
    for r in rs:
        for k, v in r["reached"].items():
            reached[k] = reached.get(k, 0) + v
    samples = []
    for r in rs:
        for s in r["samples"]:
            if len(samples) < 12:
                samples.append({"task": r["name"], "model": s})
    if not samples:
        samples = [{"task": r["name"], "trace": (r["traces"][0][-6:] if r["traces"] else [])} for r in rs[:3]]
    inc = {}
    for r in rs:
        for k, v in r["inconclusive"].items():
            inc[k] = inc.get(k, 0) + v
    calls = sum(v for k, v in reached.items() if k.startswith("call:"))
    paths = sum(r["paths"] for r in rs)
    obl = sum(r["obligations"] for r in rs)
    ev["coverage"] = dict(
        states=paths + sum(r["decisions"] for r in rs), transitions=calls, traces_validated_against_impl=ok, samples=samples,
        method="symbolic execution of the LLVM IR of /repo's current sources, every path; obligations and branch feasibility decided by z3 (QF_BV)",
        configurations=[c.name for c in cfgs.values()], functions_encoded=sorted(funcs), blocks_covered={k: "%d/%d" % tuple(v) for k, v in sorted(funcs.items())},
        bounds=prop.bounds, paths=paths, abandoned_paths=sum(r["abandoned"] for r in rs), obligations=obl, decisions=sum(r["decisions"] for r in rs), solver=st,
        tasks=[dict(name=r["name"], paths=r["paths"], obligations=r["obligations"], exhausted=r["exhausted"], wall_s=r["wall"], solver_s=r["stats"]["solver_s"], inconclusive=r["inconclusive"],
                    not_reached=r["missing"]) for r in rs],
        tasks_exhausted=sum(bool(r["exhausted"]) for r in rs), inconclusive=inc, reachability_witnesses=reached, trace_mismatches=mism, unconfirmed=unconfirmed,
        exhaustive=all(r["exhausted"] and not r["inconclusive"] for r in rs), build_s=round(tb, 2))
    ev["violations"] = nviol
    ev["wall_s"] = round(time.time() - t0, 2)
    with open(evp, "w") as f:
        json.dump(ev, f, indent=1)


def setup():
    """nothing to build ahead: every check encodes /repo's current sources itself; make sure the tools are there"""
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    h = Cfg("default").hm().boot()
    print("setup: default configuration encoded and initialised, %d functions" % len(h.prog.defs))
    return 0


def do_replay(path):
    cfg = None
    for l in open(path):
        if l.startswith("#cfg "):
            cfg = json.loads(l[5:])
    lines = [l.rstrip("\n") for l in open(path) if not l.startswith("#")]
    c = Cfg(cfg["variant"], tuple(cfg["extra"]), cfg["cxx"], cfg["real_chacha"], **cfg["over"])
    h = c.hm()
    n = replay.Native(c.macros, c.extra, c.cxx, c.real_chacha, native_fns(h))
    ok, out = n.run(lines)
    print(out)
    n.close()
    return 0 if ok else 3
