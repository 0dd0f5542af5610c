import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

import time
from smt.sampling_methods import LHS
lim = np.array([[0.0, 1.0], [2.0, 5.0]])
a = LHS(xlimits=lim, criterion="ese", random_state=3)(10)
real, n = time.time, [0]
def jumping():
    n[0] += 1
    return real() + 1e5 * n[0]
time.time = jumping
b = LHS(xlimits=lim, criterion="ese", random_state=3)(10)
time.time = real
sys.exit(0 if np.array_equal(a, b) else 1)
