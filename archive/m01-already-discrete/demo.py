import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.applications.mixed_integer import MixedIntegerContext, FLOAT, INT, ENUM
from smt.surrogate_models import KRG
xt = [(ENUM, 3), INT]; lim = [["a", "b", "c"], [0, 4]]
c = MixedIntegerContext(xt, lim, work_in_folded_space=False)
s = c.build_surrogate_model(KRG(print_global=False))
r = np.random.RandomState(0); x = np.array([[float(i == j) for j in range(3)] + [float(k)] for i in range(3) for k in range(5)])
s.set_training_values(x, x[:, :1] + 2 * x[:, 1:2] + np.sin(x[:, 3:])); quiet(s.train)
q = np.array([[1., 1, 0, 2], [0, 0, 0, 3], [0, 1, 1, 1]])
sys.exit(0 if np.allclose(s.predict_values(q), s.predict_values(np.array([[1., 0, 0, 2], [1, 0, 0, 3], [0, 1, 0, 1]])), rtol=1e-9) else 1)
