import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

import copy
from smt.surrogate_models import KRG
x, y = data(); x2, y2 = data(seed=5)
s = KRG(print_global=False); s.set_training_values(x, y); quiet(s.train)
q = np.random.RandomState(1).rand(5, 2)
c = copy.deepcopy(s); a = c.predict_values(q)
s.set_training_values(x2, 3 * x2[:, :1] + np.cos(9 * x2[:, 1:])); quiet(s.train)
try: b = c.predict_values(q)
except Exception: sys.exit(1)
sys.exit(0 if np.allclose(a, b, rtol=1e-9) else 1)
