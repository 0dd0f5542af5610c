import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

import time
from smt.surrogate_models import LS
x, y = data()
s = LS(print_global=False); s.set_training_values(x, y); s.train()
time.time = lambda: 1000.0
try: s.predict_values(x); ok = True
except ZeroDivisionError: ok = False
sys.exit(0 if ok else 1)
