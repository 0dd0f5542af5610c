import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

import signal
from smt.surrogate_models import KRG
import scipy.linalg as sl
class Late(BaseException): pass
n = [0]
def broken(*a, **k):
    n[0] += 1
    if n[0] > 20000: raise Late
    raise sl.LinAlgError("injected")
sl.cholesky = broken
x, y = data()
s = KRG(print_global=False); s.set_training_values(x, y)
try: quiet(s.train); ok = False
except Late: ok = False
except Exception: ok = True
sys.exit(0 if ok else 1)
