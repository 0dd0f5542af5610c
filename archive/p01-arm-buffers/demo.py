import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.problems import RobotArm
p = RobotArm(ndim=4); r = np.random.RandomState(0)
X = [r.rand(3, 4), r.rand(3, 4)]; want = [RobotArm(ndim=4)(x) for x in X]
bad = []
n = [0]
def other(frame, event, arg):
    if frame.f_code.co_name != "_evaluate": return None
    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            if n[0] == k:
                sys.settrace(None)
                t = threading.Thread(target=lambda: p(X[1])); t.start(); t.join()
        return local
    return local
for k in range(1, 60):
    n[0] = 0
    sys.settrace(other)
    y = p(X[0])
    sys.settrace(None)
    if not np.allclose(y, want[0]): bad.append(k)
sys.exit(1 if bad else 0)
