import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.surrogate_models import KPLS
x, y = data(15, 3); y2 = x[:, 2:] ** 2 + 0.1 * x[:, :1]
def mk(s):
    np.random.seed(0); s.train(); return s.predict_values(x + 0.05)
a = KPLS(print_global=False); a.set_training_values(x, y); mk(a); a.update_training_values(y2)
b = KPLS(print_global=False); b.set_training_values(x, y2)
sys.exit(0 if np.allclose(mk(a), mk(b)) else 1)
