import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

import subprocess
code = """
import sys
from smt.utils.silence import Silence2
with Silence2():
    sys.stderr.write("LEAK")
"""
r = subprocess.run([sys.executable, "-W", "ignore", "-c", code], capture_output=True, text=True, env={k: v for k, v in os.environ.items() if k != "PYTHONUNBUFFERED"})
sys.exit(1 if "LEAK" in r.stderr + r.stdout else 0)
