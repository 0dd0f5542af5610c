import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.applications import EGO
n = [0]
def f(x):
    n[0] += 1
    if n[0] == 3: raise RuntimeError("simulation crashed")
    return np.sin(5 * np.atleast_2d(x)[:, :1])
e = EGO(n_iter=4, xdoe=np.array([[0.1], [0.4], [0.9]]), xlimits=np.array([[0.0, 1.0]]), random_state=1, n_start=5)
try: r = quiet(e.optimize, f)
except RuntimeError: sys.exit(0)
n[0] = 100
sys.exit(0 if np.allclose(f(r[3]), r[4]) else 1)
