import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.surrogate_models import KRG
import scipy.linalg as sl
x, y = data(); before = np.geterr()
real = sl.cholesky; n = [0]
def stop(*a, **k):
    n[0] += 1
    if n[0] == 4: raise KeyboardInterrupt
    return real(*a, **k)
sl.cholesky = stop
s = KRG(print_global=False); s.set_training_values(x, y)
try: s.train()
except KeyboardInterrupt: pass
sys.exit(0 if np.geterr() == before else 1)
