"""Replay of one concrete path against the natively compiled real code."""
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from . import build, expr as X
from .expr import E
from .machine import MMAP_START

AT = ["at_prepare", "at_parent", "at_child", "at_mallinfo2", "at_mallinfo", "at_mallinfo_arena_info", "at_mallinfo_bin_info", "at_malloc_info", "at_malloc_info_cb"]
HERE = os.path.dirname(os.path.abspath(__file__))
WRAP = ["mmap", "munmap", "mprotect", "madvise", "mremap", "pkey_alloc", "pkey_set", "pkey_mprotect", "sysconf", "getrandom", "write", "abort",
        "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_atfork", "prctl"]


def script(events, model, end=None):
    """events of a path under a model -> list of script lines"""
    out = []

    def v(x):
        return X.ev(x, model) if isinstance(x, E) else x

    def h(x):
        return "%x" % v(x)

    def d(x):
        x = v(x)
        return "*" if 0x1000 <= x < MMAP_START else "%x" % x

    for e in events:
        k = e[0]
        if k == "mmap":
            out.append("Y mmap 4 %s %s %s %s %s %s" % (d(e[1]), h(e[2]), h(e[3]), h(e[4]), h(e[5]), h(e[6])))
        elif k == "munmap":
            out.append("Y munmap 2 %s %s 0 %s" % (d(e[1]), h(e[2]), h(e[3])))
        elif k == "mprotect":
            dat = 0x1000 <= v(e[1]) < MMAP_START
            out.append("Y mprotect 3 %s %s %s 0 %s" % (d(e[1]), "*" if dat else h(e[2]), h(e[3]), h(e[5])))
        elif k == "pkey_mprotect":
            dat = 0x1000 <= v(e[1]) < MMAP_START
            out.append("Y pkey_mprotect 4 %s %s %s %s 0 %s" % (d(e[1]), "*" if dat else h(e[2]), h(e[3]), "ffffffff" if e[4] is None else h(e[4]), h(e[5])))
        elif k == "madvise":
            out.append("Y madvise 3 %s %s %s 0 %s" % (d(e[1]), h(e[2]), h(e[3]), h(e[4])))
        elif k == "mremap":
            out.append("Y mremap 5 %s %s %s %s %s %s %s" % (d(e[1]), h(e[2]), h(e[3]), h(e[4]), d(e[5]), h(e[6]), h(e[7])))
        elif k == "pkey_alloc":
            out.append("Y pkey_alloc 0 %s %s" % (h(e[1]), h(e[2]) if len(e) > 2 else "0"))
        elif k == "prctl":
            out.append("q %x" % e[1])
        elif k == "pkey_set":
            out.append("Y pkey_set 2 %s %s 0 0" % (h(e[1]), h(e[2])))
        elif k == "getrandom":
            out.append("N %s %s %s %s" % (h(e[1]), h(e[3]), h(e[4]), bytes(v(x) for x in e[5]).hex() or "-"))
        elif k == "ks":
            b = b"".join(v(x).to_bytes(8, "little") for x in e[3])[:e[2]]
            out.append("K %x %s" % (e[2], b.hex()))
        elif k == "lock":
            out.append("L " + h(e[1]))
        elif k in ("unlock", "bad_unlock"):
            if k == "unlock":
                out.append("U " + h(e[1]))
        elif k == "mutex_init":
            out.append("I " + h(e[1]))
        elif k == "mutex_init_fail":
            out.append("i")
        elif k == "pthread_atfork":
            out.append("F %s" % h(e[4] if len(e) > 4 else 0))
        elif k == "write":
            out.append("w %s %s %s" % (h(e[1]), h(e[2]), h(e[3] if len(e) > 3 else 0)))
        elif k == "call":
            out.append("C %s %s" % (e[1], " ".join(a if isinstance(a, str) else h(a) for a in e[2])))
        elif k == "ret":
            out.append("R %d %s" % (e[2], h(e[1]) if e[2] else "0"))
        elif k == "throw":
            out.append("X")
        elif k == "thread":
            out.append("T %d" % e[1])
        elif k == "poke":
            out.append("P %s %s %s" % (h(e[1]), h(e[2]), h(e[3])))
        elif k == "peek":
            out.append("G %s %s %s" % (h(e[1]), h(e[2]), h(e[3])))
        elif k == "prot":
            out.append("V %s %s" % (h(e[1]), h(e[2])))
        elif k == "errno=":
            out.append("E " + h(e[1]))
        elif k == "errno?":
            out.append("e " + h(e[1]))
        elif k == "new_handler":       # the program installs handler number n (0: none)
            out.append("h %d" % e[1])
        elif k == "handler":           # handler number n is called
            out.append("B %d" % e[1])
        elif k == "handled":           # it ends: 0 returns, 1 throws bad_alloc, 2 throws a derived class
            out.append("b %d" % e[1])
        elif k == "fatal":
            out.append("A " + e[1].encode("latin1").hex())
        elif k == "segv":
            out.append("S " + ("*" if e[1] is None else h(e[1]) + (" " + h(e[2]) if e[2] is not None else "")))
        elif k == "hang":
            out.append("H")
        elif k == "terminate":
            out.append("Z")
        elif k in ("fputs", "fprintf", "irg", "tagged"):
            pass
        else:
            raise Exception("replay: event " + k)
    return out


class Native:
    """native build of one configuration"""

    @staticmethod
    def at(d):
        n = Native.__new__(Native)
        n.dir, n.exe = d, os.path.join(d, "replay")
        return n

    def __init__(self, cfg, extra=(), cxx=False, real_chacha=False, fns=(), dir=None):
        self.dir = dir or tempfile.mkdtemp(prefix="hmnative.")
        cfg = dict(cfg, CONFIG_SELF_INIT="false")   # the script performs the initialisation itself
        fl = build.defs(cfg, extra) + build.BASE + ["-O2", "-g", "-w", "-pthread", "-fno-omit-frame-pointer"]
        objs = []
        jobs = []
        for s in build.sources():
            o = os.path.join(self.dir, s + ".o")
            jobs.append(["/usr/bin/gcc", "-std=c17"] + fl + ["-c", os.path.join(build.REPO, s), "-o", o])
            objs.append(o)
        if cxx:
            o = os.path.join(self.dir, "new.cc.o")
            jobs.append(["/usr/bin/g++", "-std=c++17", "-fsized-deallocation"] + fl + ["-c", os.path.join(build.REPO, "new.cc"), "-o", o])
            objs.append(o)
        with open(os.path.join(self.dir, "table.h"), "w") as f:
            f.write('extern "C" {\n')
            for n in AT:
                f.write("u64 %s(u64, u64, u64, u64, u64);\n" % n)
            fns = sorted(set(fns))
            for i, n in enumerate(fns):
                f.write('u64 api_%d(u64, u64, u64, u64, u64) __asm__("%s");\n' % (i, n))
            f.write("}\nstatic struct fnent table[] = {\n")
            for i, n in enumerate(fns):
                f.write('{"%s", api_%d},\n' % (n, i))
            for n in AT:
                f.write('{"@%s", %s},\n' % (n[3:], n))
            f.write("};\n")
        o = os.path.join(self.dir, "replay_main.o")
        jobs.append(["/usr/bin/g++", "-std=c++17", "-O1", "-g", "-w", "-pthread", "-fsized-deallocation", "-I", self.dir] +
                    (["-DREAL_CHACHA"] if real_chacha else []) + (["-DHM_ANDROID"] if "-D__ANDROID__" in extra else []) + ["-c", os.path.join(HERE, "replay_main.cc"), "-o", o])
        objs.append(o)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(build.run, jobs))
        wr = WRAP + ([] if real_chacha else ["chacha_keystream_bytes"])
        self.exe = os.path.join(self.dir, "replay")
        build.run(["/usr/bin/g++", "-pthread", "-o", self.exe] + objs + ["-Wl," + ",".join("--wrap=" + w for w in wr)])

    def run(self, lines):
        fd, p = tempfile.mkstemp(prefix="script.", dir=self.dir)
        os.write(fd, ("\n".join(lines) + "\n").encode())
        os.close(fd)
        try:
            r = subprocess.run([self.exe, p], capture_output=True, text=True, timeout=90, cwd=self.dir, errors="replace")
        except subprocess.TimeoutExpired:
            return False, "native replay timed out"
        out = r.stdout + (("\n[stderr] " + r.stderr) if r.stderr else "")
        return r.returncode == 0 and "REPRODUCED" in r.stdout, out

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
