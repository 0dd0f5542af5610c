import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.applications import EGO
from smt.surrogate_models import KRG
def f(x): return np.sin(9 * np.atleast_2d(x)[:, :1]) + np.atleast_2d(x)[:, :1]
e = EGO(n_iter=3, xdoe=np.array([[0.05], [0.4], [0.93]]), xlimits=np.array([[0.0, 1.0]]), random_state=1, n_start=5, surrogate=KRG(print_global=False))
def run():
    np.random.seed(3); return quiet(e.optimize, f)[3]
sys.exit(0 if np.array_equal(run(), run()) else 1)
