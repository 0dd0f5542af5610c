import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.surrogate_models import RBF
x, y = data()
def model(reg, d=None):
    k = {} if d is None else {"data_dir": d}
    s = RBF(reg=reg, d0=0.7, print_global=False, **k)
    s.set_training_values(x, y); s.train()
    return s.predict_values(x + 0.05)
with tempfile.TemporaryDirectory() as d:
    model(1e-10, d)
    sys.exit(0 if np.allclose(model(0.5, d), model(0.5)) else 1)
