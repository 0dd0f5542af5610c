import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.surrogate_models import RMTB
x, y = data(15, 1)
def mk(p):
    s = RMTB(xlimits=np.array([[0.0, 1.0]]), num_ctrl_pts=8, order=3, approx_order=4, solver_tolerance=1e-4, nonlinear_maxiter=30, print_global=p)
    s.set_training_values(x, y); quiet(s.train); return quiet(s.predict_values, x)
sys.exit(0 if np.array_equal(mk(True), mk(False)) else 1)
