"""Nothing needs building: checks that the symbolic engine loads the code under test and runs one harness."""
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
import z3  # noqa: E402
from sx import shims  # noqa: E402

print('z3', z3.get_version_string(), 'python', sys.version.split()[0])
shims.load()
from sx.run import PY_REAL  # noqa: E402
r = subprocess.run([PY_REAL, '-c', 'import intervalpy, arrow, numpy; print("replay interpreter ok")'], env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
sys.exit(r.returncode)
