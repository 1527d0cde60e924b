#!/usr/bin/env python3
"""Entry point of every check:  check.py Cxx [--tier quick|thorough] [--replay FILE] [--sub NAME] [--scale F]

Runs the checks of one property against the working tree in /repo (or $VERIF_REPO) and

* exits 0 when the property held on everything explored,
* exits 1 after printing ``VIOLATION property=<id> replay=<path>`` when it did not,
* exits 2 on an error of the harness itself.
"""
import os
import sys
import shutil
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")


def _bootstrap():
    """ Re-execute under the interpreter MyCapytain is installed in, with a fixed hash seed, isolated
    bytecode caches and no hypothesis database. """
    if os.environ.get("VERIF_CHILD") == "1":
        return
    env = dict(os.environ)
    env["VERIF_CHILD"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    scratch = tempfile.mkdtemp(prefix="verif-")
    env["VERIF_SCRATCH"] = scratch
    env["TMPDIR"] = scratch
    # an empty cache prefix: never pick up a stale .pyc of /repo
    env["PYTHONPYCACHEPREFIX"] = os.path.join(scratch, "pyc")
    env["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(scratch, "hypothesis")
    env.pop("PYTHONPATH", None)
    python = PY if os.path.exists(PY) else sys.executable
    import signal
    import subprocess
    child = subprocess.Popen([python, os.path.abspath(__file__)] + sys.argv[1:], env=env)

    def forward(signum, _frame):
        try:
            child.send_signal(signum)
        except Exception:
            pass
    signal.signal(signal.SIGTERM, forward)
    signal.signal(signal.SIGINT, forward)
    try:
        code = child.wait()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code if code in (0, 1) else 2)


if __name__ == "__main__":
    _bootstrap()
    sys.path.insert(0, HERE)
    from vlib import runner
    sys.exit(runner.main(sys.argv[1:], HERE))
