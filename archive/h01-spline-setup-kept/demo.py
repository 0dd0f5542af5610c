import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.surrogate_models import RMTB
x, y = data(9, 1)
def make(hi):
    s = RMTB(print_global=False, xlimits=np.array([[0., hi]]), num_ctrl_pts=8, energy_weight=1e-2, solver="lu", approx_order=2, extrapolate=True)
    s.set_training_values(x, y); quiet(s.train)
    return s
q = np.linspace(0, 5, 11)
s = make(1.0); s.options["xlimits"] = np.array([[0., 4.]]); quiet(s.train)
sys.exit(0 if np.allclose(s.predict_values(q), make(4.0).predict_values(q), rtol=1e-6, atol=1e-8) else 1)
