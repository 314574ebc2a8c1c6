#!/usr/bin/env python3
"""Entry of every check:  run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--cases N]

Re-executes itself with the repository's own interpreter and a controlled
environment, then runs props/<property>.py with the engine in vlib/core.py.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin/python"


def main():
    if os.environ.get("VERIF_CHILD") != "1":
        import shutil
        import subprocess
        import tempfile

        scratch = tempfile.mkdtemp(prefix="verif-")
        env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "XDG_", "PYLINT"))}
        env.update(
            VERIF_CHILD="1",
            VERIF_SCRATCH=scratch,
            VERIF_REPO=REPO,
            PYTHONHASHSEED="0",
            PYTHONDONTWRITEBYTECODE="1",
            PYTHONPATH=REPO + os.pathsep + HERE,
            PYTHONUTF8="1",
            PYTHONWARNINGS="ignore",
            XDG_DATA_HOME=os.path.join(scratch, "xdg-data"),
            XDG_CACHE_HOME=os.path.join(scratch, "xdg-cache"),
            XDG_CONFIG_HOME=os.path.join(scratch, "xdg-config"),
            PYLINTHOME=os.path.join(scratch, "pylint-home"),
            TMPDIR=scratch,
            HOME=scratch,
            COLUMNS="80",
            LC_ALL="C.UTF-8",
        )
        python = VENV if os.path.exists(VENV) else sys.executable
        try:
            rc = subprocess.call([python, os.path.abspath(__file__)] + sys.argv[1:], env=env, cwd=scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(rc)

    sys.path.insert(0, HERE)
    from vlib import core

    sys.exit(core.main(HERE, sys.argv[1:]))


if __name__ == "__main__":
    main()
