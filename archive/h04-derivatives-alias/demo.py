import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.surrogate_models import GEKPLS
x, y = data(14)
dy = [3 * np.cos(3 * x[:, :1]), 2 * x[:, 1:2]]
def mk(spoil):
    s = GEKPLS(theta0=[1e-2], n_comp=1, xlimits=np.array([[0.0, 1.0]] * 2), print_global=False, delta_x=0.01, extra_points=1)
    s.set_training_values(x, y)
    buf = np.empty_like(dy[0])
    for k in range(2):
        if spoil:
            buf[:] = dy[k]; s.set_training_derivatives(x, buf, k)
        else: s.set_training_derivatives(x, dy[k].copy(), k)
    buf[:] = -7.0
    np.random.seed(0); quiet(s.train)
    return s.predict_values(x + 0.05)
sys.exit(0 if np.allclose(mk(True), mk(False)) else 1)
