import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

import scipy.sparse as sp
from smt.utils.linear_solvers import get_solver
from smt.utils.printer import Printer
m = sp.csc_matrix(np.diag([1.0, 2.0, 3.0]) + 0.1); s = get_solver("lu"); b = np.ones(3); o = np.zeros(3)
s._setup(m, Printer()); s._solve(b, o)
m.data *= 2.0
s._setup(m, Printer()); s._solve(b, o)
sys.exit(0 if np.allclose(m.dot(o), b) else 1)
