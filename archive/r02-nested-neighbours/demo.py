import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.applications.mfk import NestedLHS
lim = np.array([[0.0, 1.0], [0.0, 1.0]]); ok = True
for k in range(12):
    np.random.seed(k); d = NestedLHS(nlevel=3, xlimits=lim)(5)
    ok &= [len(v) for v in d] == [20, 10, 5]
sys.exit(0 if ok else 1)
