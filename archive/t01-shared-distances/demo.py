import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.surrogate_models import KRG
x, y = data()
s = KRG(print_global=False); s.set_training_values(x, y); quiet(s.train)
p, q = np.array([[.1, .9], [.5, .05]]), np.array([[.95, .3], [.02, .6]])
want = s.predict_variances(p)
inner, state = s._componentwise_distance, {"n": 0}
def slow(dx, *a, **k):
    d = inner(dx, *a, **k)
    return d
import sys as _s
kernel = s._correlation_types[s.options["corr"]]
# another thread runs between the distances and the kernel: emulate with a trace on lines of _predict_variances
res = {}
def tracer(frame, event, arg):
    if frame.f_code.co_name != "_predict_variances": return None
    def line(frame, event, arg):
        if event == "line" and threading.current_thread() is t and state["n"] < 20:
            state["n"] += 1
            o = threading.Thread(target=lambda: s.predict_variances(q)); o.start(); o.join()
        return line
    return line
def work():
    _s.settrace(tracer)
    try: res["a"] = s.predict_variances(p)
    finally: _s.settrace(None)
t = threading.Thread(target=work); t.start(); t.join()
sys.exit(0 if "a" in res and np.allclose(res["a"], want, rtol=1e-9) else 1)
