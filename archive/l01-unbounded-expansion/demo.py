import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.utils.line_search import get_line_search_class
class Late(Exception): pass
n = [0]
def f(v):
    n[0] += 1
    if n[0] > 5000: raise Late
    return -float(v[0])
try: get_line_search_class("cubic")(np.zeros(1), np.ones(1), f, lambda v: np.array([-1.0]))(1.0)
except Late: sys.exit(1)
except Exception: pass
sys.exit(0)
