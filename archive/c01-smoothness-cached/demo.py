import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.surrogate_models import RMTB
x, y = data(9, 1); x = np.sort(x, axis=0)
def run(smooth, d=None):
    s = RMTB(print_global=False, xlimits=np.array([[0., 1.]]), num_ctrl_pts=8, energy_weight=1e-2, smoothness=smooth, solver="lu",
             approx_order=2, data_dir=d, save_energy_terms=d is not None)
    s.set_training_values(x, y); quiet(s.train)
    return s.predict_values(np.linspace(0, 1, 11))
with tempfile.TemporaryDirectory() as d:
    run(1.0, d); a = run(50.0, d)
sys.exit(0 if np.allclose(a, run(50.0), rtol=1e-7, atol=1e-9) else 1)
