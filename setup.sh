#!/bin/bash
# Nothing to compile: pure Python. Check that the interpreter, /repo and every check module import.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache LC_ALL=C.UTF-8
unset PYTHONPATH PYTHONHOME
mkdir -p evidence replays
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
exec "$PY" - <<'P'
import sys, os, importlib
sys.path[:0] = ["lib", "."]
import mc
mc.setup_import()
for f in sorted(os.listdir("checks")):
    if f.startswith("c") and f.endswith(".py"):
        m = importlib.import_module("checks." + f[:-3])
        m.spaces("quick")
print("setup ok")
P
