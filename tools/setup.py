"""nothing to build: checks that the interpreters and libraries the checks use are there, and the numpy model against numpy"""
import subprocess
import sys
import z3  # noqa: F401
import numpy  # noqa: F401
r = subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, scipy, numba"], check=False)
if r.returncode == 0:
    import os
    r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "numpy_model_test.py")], check=False)
sys.exit(r.returncode)
