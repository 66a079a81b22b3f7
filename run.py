#!/usr/bin/env python
"""Run one check: run.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]"""
import importlib
import os
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent
PY = "/opt/venv/bin/python"
if os.environ.get("PYTHONHASHSEED") != "0" or sys.executable != PY:
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    os.execve(PY, [PY, str(Path(__file__).resolve()), *sys.argv[1:]], env)

sys.path.insert(0, str(HERE))
from vk import core  # noqa: E402

if __name__ == "__main__":
    cid = sys.argv[1]
    if cid == "--setup":
        core.setup_env()
        print("ok: tools and /repo/src importable")
        sys.exit(0)
    jit = cid in ("C23",)
    core.setup_env(jit=jit)
    check = importlib.import_module("checks." + cid.lower())
    rc = core.run_check(check, sys.argv[2:])
    sys.stdout.flush()
    os._exit(rc)
