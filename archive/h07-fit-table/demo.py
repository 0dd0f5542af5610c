import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

import copy
from smt.surrogate_models import LS
x, y = data()
s = LS(print_global=False); s.set_training_values(x, y); quiet(s.train)
c = copy.deepcopy(s); q = np.random.RandomState(1).rand(5, 2); a = s.predict_values(q)
c.set_training_values(x, -2 * y); quiet(c.train)
sys.exit(0 if np.allclose(a, s.predict_values(q)) else 1)
