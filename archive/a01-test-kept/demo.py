import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.applications import MOE
x, y = data(40, 2); x2, y2 = data(40, 2, 3)
m = MOE(n_clusters=2, allow=["KRG"]); m.set_training_values(x, y); quiet(m.train)
m.set_training_values(x2, 5 + y2); quiet(m.train)
ok = all(any(np.allclose(t[:2], p) for p in x2) for t in m.test_values)
sys.exit(0 if ok else 1)
