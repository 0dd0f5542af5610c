import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.surrogate_models import RBF
import smt.surrogate_models.rbf as m
x, y = data()
s = RBF(d0=0.6, print_global=False); s.set_training_values(x, y); s.train()
q = [x[:4] + 0.1, x[4:8] - 0.1]; ref = [s.predict_values(v) for v in q]
a, b = threading.Event(), threading.Event(); real = s.rbfc
class C:
    def __getattr__(self, n): return getattr(real, n)
    def compute_jac(self, n, xx, jac):
        one = threading.current_thread().name == "one"
        if not one: a.wait(20)
        real.compute_jac(n, xx, jac)
        if one: a.set(); b.wait(20)
        else: b.set()
s.rbfc = C(); out = [None, None]
def run(i): out[i] = s.predict_values(q[i])
ts = [threading.Thread(target=run, args=(i,), name=n) for i, n in enumerate(("one", "two"))]
[t.start() for t in ts]; [t.join() for t in ts]
sys.exit(0 if all(np.allclose(o, r) for o, r in zip(out, ref)) else 1)
