import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.surrogate_models import RBF
from smt.utils import caching
import pickle
x, y = data(); 
def mk(scale, d=None):
    s = RBF(d0=0.6, print_global=False, **({"data_dir": d} if d else {}))
    s.set_training_values(x, scale * y); return s
with tempfile.TemporaryDirectory() as d:
    # the store of the first training waits until the second has computed its own
    first, second = mk(1.0, d), mk(5.0, d)
    a, b = threading.Event(), threading.Event()
    orig = RBF._new_train
    def new_train(self):
        if self is second: a.wait(20)
        orig(self)
    RBF._new_train = new_train
    class P:
        def __getattr__(self, n): return getattr(pickle, n)
        def dumps(self, obj, *k):
            if isinstance(obj, dict) and "sol" in obj:
                if threading.current_thread().name == "one":
                    a.set(); b.wait(3)
                else:
                    b.set()
            return pickle.dumps(obj, *k)
    caching.pickle = P()
    ts = [threading.Thread(target=first.train, name="one"), threading.Thread(target=second.train, name="two")]
    for t in ts: t.start()
    for t in ts: t.join()
    caching.pickle = pickle; RBF._new_train = orig
    ok = True
    for scale in (1.0, 5.0):
        s, r = mk(scale, d), mk(scale)
        s.train(); r.train()
        ok &= np.allclose(s.predict_values(x + 0.03), r.predict_values(x + 0.03))
sys.exit(0 if ok else 1)
