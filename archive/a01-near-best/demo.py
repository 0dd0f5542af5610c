import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.applications.moe import MOE
from smt.surrogate_models import LS, QP
m = MOE(n_clusters=1, allow=["LS", "QP"]); r = np.random.RandomState(0); ok = True
for k in range(60):
    r = np.random.RandomState(k); v = r.rand(40, 3); v[:, 2] = v[:, 0] + 0.3 * r.randn(40)
    m.ndim = 2; m.x = v[:, :2]; m._enabled_expert_types = m._get_enabled_expert_types()
    best = quiet(m._find_best_model, v)
    test, train = m._extract_part(v, 10); e = {}
    for c in (LS, QP):
        s = c(print_global=False); s.set_training_values(train[:, :2], train[:, 2]); s.train()
        e[s.name] = np.linalg.norm(test[:, 2] - s.predict_values(test[:, :2])[:, 0])
    ok &= e[best.name] <= min(e.values()) * (1 + 1e-9)
sys.exit(0 if ok else 1)
