import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.surrogate_models import QP
x, y = data(20)
s = QP(print_global=False); s.set_training_values(x, y); s.train()
ref = s.predict_values(x)
try: s.set_training_values(np.zeros((7, 3)), np.zeros((6, 2)))
except ValueError: pass
try: ok = np.array_equal(s.predict_values(x), ref)
except Exception as e: print(e); ok = False
sys.exit(0 if ok else 1)
