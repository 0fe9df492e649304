"""Nothing to build: the harness is Python and loads the library from /repo at every run. This only checks that the
interpreter and the dependencies are there."""
import os
import subprocess
import sys

PY = os.environ.get("VF_PYTHON", "/opt/venv/bin/python")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
r = subprocess.run([PY, "-B", "-c", "import sys; sys.path.insert(0, sys.argv[1]); import vf.env; print('ready')", HERE])
sys.exit(r.returncode)
