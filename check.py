#!/usr/bin/env python3
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/veriftools/pyvenv/bin/python3"
try:
    import z3  # noqa
except ImportError:
    if sys.executable != PY:
        os.execv(PY, [PY] + sys.argv)
    raise
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from hmsym import runner
if len(sys.argv) > 2 and sys.argv[1] == "--replay":
    sys.exit(runner.do_replay(sys.argv[2]))
if sys.argv[1:2] == ["--setup"]:
    sys.exit(runner.setup())
sys.exit(runner.main(sys.argv[1:]))
