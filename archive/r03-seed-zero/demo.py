import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.surrogate_models import GENN
x, y = data(10, 1)
def run(k):
    np.random.seed(k)
    s = GENN(seed=0, num_epochs=2, num_iterations=10, mini_batch_size=4, is_print=False, print_global=False) if False else GENN()
    for n, v in dict(seed=0, num_epochs=2, num_iterations=10, mini_batch_size=4, is_print=False, print_global=False).items(): s.options[n] = v
    s.set_training_values(x, y); s.set_training_derivatives(x, 3 * np.cos(3 * x), 0); quiet(s.train)
    return s.predict_values(x)
sys.exit(0 if np.array_equal(run(1), run(2)) else 1)
