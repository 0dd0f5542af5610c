import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.surrogate_models import RBF
import smt.utils.caching as C
x, y = data(12, 2); x2, y2 = data(12, 2, 5)
with tempfile.TemporaryDirectory() as d:
    s = RBF(d0=0.7, print_global=False, data_dir=os.path.join(d, "gone")); s.set_training_values(x, y)
    try: s.train()
    except Exception: pass
    os.mkdir(os.path.join(d, "gone"))
    s.set_training_values(x2, y2); s.train()
    f = RBF(d0=0.7, print_global=False); f.set_training_values(x2, y2); f.train()
    q = x + 0.03
    sys.exit(0 if np.allclose(s.predict_values(q), f.predict_values(q), rtol=1e-9) else 1)
