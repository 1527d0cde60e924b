""" setup_cmd: nothing is built; checks that everything the checks need can be imported, offline """
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
code = "import sys; sys.path.insert(0, {!r}); from vlib import support; support.load(); import hypothesis; print('hypothesis', hypothesis.__version__)".format(HERE)
sys.exit(subprocess.call([PY, "-B", "-c", code]))
