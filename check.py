#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/veriftools/pyvenv/bin/python"
if os.environ.get("PYTHONHASHSEED") != "0" or os.path.realpath(sys.prefix) != os.path.realpath(os.path.dirname(os.path.dirname(PY))):
    exe = PY if os.path.exists(PY) else "/usr/bin/env"
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    args = ([PY] if exe == PY else ["env", "python3-vt"]) + ["-B", os.path.abspath(__file__)] + sys.argv[1:]
    if os.environ.get("_VT_REEXEC") == "1":
        pass
    else:
        env["_VT_REEXEC"] = "1"
        os.execve(exe, args, env)
sys.path.insert(0, HERE)
from vt import run  # noqa

tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
sys.exit(run.main(sys.argv[1], tier))
