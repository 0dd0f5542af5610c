import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.surrogate_models import RBF
def mk(s, k):
    x, y = data(seed=k); s.set_training_values(x, y); s.train(); return s.predict_output_derivatives(x[:3] + 0.1)[None]
s = RBF(d0=0.6, print_global=False); mk(s, 1)
sys.exit(0 if np.allclose(mk(s, 2), mk(RBF(d0=0.6, print_global=False), 2), atol=1e-6) else 1)
