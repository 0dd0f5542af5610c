import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.surrogate_models import KRG
x, y = data()
s = KRG(print_global=False); s.set_training_values(x, y); quiet(s.train)
q = np.array([[.25, .5], [.75, .125], [.5, .875]])
a = s.predict_values(q); b = s.predict_values(q[::-1])[::-1]
sys.exit(0 if np.allclose(a, b, rtol=1e-9) else 1)
