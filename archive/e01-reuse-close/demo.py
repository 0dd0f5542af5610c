import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.applications import EGO
calls = []
def f(x):
    calls.extend(np.array(x)); return 1e4 * (np.atleast_2d(x)[:, :1] - 3e-4) ** 2
lim = np.array([[0.0, 1e-3]])
e = EGO(n_iter=3, criterion="SBO", xdoe=np.array([[0.0], [4e-4], [9e-4]]), xlimits=lim, random_state=1, n_start=5)
np.random.seed(1)
r = quiet(e.optimize, f)
ok = len(calls) == 6 and np.allclose(np.array(calls), r[3], rtol=0, atol=1e-12) and np.allclose(f(r[3]), r[4])
sys.exit(0 if ok else 1)
