import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.surrogate_models import RBF
x, y = data(); s = RBF(d0=[0.5, 1.5], print_global=False); s.set_training_values(x, y); s.train()
q = x[:5] + 0.05; h = 1e-5; e = np.array([0, h])
sys.exit(0 if np.allclose(s.predict_derivatives(q, 1), (s.predict_values(q + e) - s.predict_values(q - e)) / 2 / h, rtol=1e-2, atol=1e-2) else 1)
