import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.surrogate_models import KRG
import scipy.linalg as sl
d = tempfile.mkdtemp(); os.chdir(d)
x, y = data()
real = sl.cholesky; n = [0]
def flaky(*a, **k):
    n[0] += 1
    if n[0] == 3:
        raise sl.LinAlgError("injected")
    return real(*a, **k)
sl.cholesky = flaky
s = KRG(print_global=False); s.set_training_values(x, y)
try:
    quiet(s.train)
except ValueError:
    pass
left = os.listdir(d)
for f in left: os.remove(os.path.join(d, f))
os.chdir("/"); os.rmdir(d)
sys.exit(1 if left else 0)
