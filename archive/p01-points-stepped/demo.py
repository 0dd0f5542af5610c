import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.problems import WingWeight
p = WingWeight(ndim=10, use_FD=True); x = np.array(p.xlimits.mean(axis=1)).reshape(1, -1); x0 = x.copy()
quiet(p, x, 0)
sys.exit(0 if np.array_equal(x, x0) else 1)
