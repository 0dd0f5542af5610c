import os, sys, io, tempfile, threading, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def data(n=12, nx=2, seed=0, shift=0.0):
    r = np.random.RandomState(seed)
    x = r.rand(n, nx) + shift
    return x, (np.sin(3 * x[:, :1]) + x[:, -1:] ** 2)

from smt.applications import MFK
import smt.applications.mfk as m
r = np.random.RandomState(0)
x = [np.linspace(0, 1, n).reshape(-1, 1) for n in (17, 9, 5)]
f = [lambda t: 0.5 * np.sin(9 * t) + t, lambda t: np.sin(9 * t) + 3 * t, lambda t: 2 * np.sin(9 * t) + t * t + 1]
s = MFK(print_global=False)
for l in range(2): s.set_training_values(x[l], f[l](x[l]), name=l)
s.set_training_values(x[2], f[2](x[2])); np.random.seed(0); s.train()
# adding nothing but a level in between: its variance has to pass through it
q = np.array([[0.31], [0.44], [0.83]])
v, rho = s.predict_variances_all_levels(q)
# recompute the last level from the one below
i = 2; from scipy.linalg import solve_triangular as st
X = (q - s.X_offset) / s.X_scale
C, G = s.optimal_par[i]["C"], s.optimal_par[i]["G"]
mu = s._predict_intermediate_values(X, i, descale=False)
fl = np.vstack((mu.T, np.ones((1, 3))))
d = s._componentwise_distance(s._differences(X, Y=s.X_norma_all[i])) if hasattr(s, "_differences") else None
rr = s._correlation_types[s.options["corr"]](s.optimal_theta[i], d).reshape(3, s.nt_all[i])
rt = st(C, rr.T, lower=True); Ft = st(C, s.F_all[i], lower=True); u = st(G.T, fl - Ft.T.dot(rt), lower=True)
s2 = s.optimal_par[i]["sigma2"] / s.y_std ** 2
want = rho[1] * v[:, 1] + s2 * (1 - (rt ** 2).sum(0) + (u ** 2).sum(0)) * s.y_std ** 2
print(want, v[:, 2])
sys.exit(0 if np.allclose(want, v[:, 2], rtol=1e-6, atol=1e-12) else 1)
