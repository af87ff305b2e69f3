#!/usr/bin/env python3
"""Entry point of every check:  python3 run.py <PROPERTY> [--replay FILE] [--cases N] [--case I]

Re-executes itself under the repository's interpreter with a deterministic
environment, then runs the monitor of one property against /repo's working tree.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"

if os.environ.get("VERIF_REEXEC") != "1":
    env = dict(os.environ)
    env.update(
        VERIF_REEXEC="1",
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONUTF8="1",
        LC_ALL="C.UTF-8",
        PYTHONWARNINGS="ignore",
    )
    env.pop("ELSIE_INKSCAPE", None)
    env.pop("PYTHONPATH", None)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, "-u", os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)

from vlib import core  # noqa: E402

if __name__ == "__main__":
    core.main(sys.argv[1:], HERE, REPO)
