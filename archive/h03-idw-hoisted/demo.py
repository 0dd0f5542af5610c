import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.surrogate_models import IDW
x, y = data(); s = IDW(print_global=False); s.set_training_values(x, y); s.train()
q = np.vstack((x[:1], x[1:4] + 0.1))
sys.exit(0 if np.allclose(s.predict_derivatives(q, 0)[1:], s.predict_derivatives(q[1:], 0)) else 1)
