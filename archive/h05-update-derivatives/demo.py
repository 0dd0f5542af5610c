import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.surrogate_models import RMTB
x, y = data(9, 1); dy = 3 * np.cos(3 * x) + 2 * x
def make():
    s = RMTB(print_global=False, xlimits=np.array([[0., 1.]]), num_ctrl_pts=8, solver="lu", approx_order=2)
    s.set_training_values(x, y); s.set_training_derivatives(x, dy, 0)
    return s
s = make()
try:
    s.update_training_derivatives(np.zeros((4, 1)), 0); sys.exit(1)
except ValueError: pass
r = make(); quiet(r.train); q = np.linspace(0, 1, 7)
try: quiet(s.train); ok = np.allclose(s.predict_values(q), r.predict_values(q))
except Exception: ok = False
sys.exit(0 if ok else 1)
