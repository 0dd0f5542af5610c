import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.surrogate_models import RBF
from smt.utils import linear_solvers as ls
xs = [data(seed=1), data(seed=2)]
def mk(i):
    s = RBF(d0=0.6, print_global=False); s.set_training_values(*xs[i]); return s
ref = []
for i in range(2): s = mk(i); s.train(); ref.append(s.predict_values(xs[i][0] + 0.1))
a, b = threading.Event(), threading.Event()
orig = ls.DenseLUSolver._setup
def setup(self, *k, **w):
    one = threading.current_thread().name == "one"
    if not one: a.wait(20)
    orig(self, *k, **w)
    if one: a.set(); b.wait(5)
    else: b.set()
ls.DenseLUSolver._setup = setup
ss = [mk(0), mk(1)]; err = []
def run(i):
    try: ss[i].train()
    except Exception as e: err.append(e); a.set(); b.set()
ts = [threading.Thread(target=run, args=(i,), name=n) for i, n in enumerate(("one", "two"))]
[t.start() for t in ts]; [t.join() for t in ts]
sys.exit(0 if not err and all(np.allclose(s.predict_values(xs[i][0] + 0.1), ref[i]) for i, s in enumerate(ss)) else 1)
