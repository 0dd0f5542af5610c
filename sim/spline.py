"""Independent reference for the regularized splines: own bases, own energy and objective."""
import numpy as np
from scipy.interpolate import BSpline
from sim import universe as U


DIRECT = ("lu", "dense-lu", "dense-chol")


def per_dim(v, nx):
    a = np.atleast_1d(np.array(U.decode(v), float)).ravel()
    return np.repeat(a, nx) if len(a) == 1 else a


def bspline(order, n, lo, hi, x, d):
    t = (np.arange(order + n) - order + 1.) / (n - order + 1)
    u = np.clip((x - lo) / (hi - lo), 0., 1.)
    out = np.zeros((len(x), n))
    for j in range(n):
        c = np.zeros(n)
        c[j] = 1
        b = BSpline(t, c, order - 1)
        # the last interval is closed at the upper end
        out[:, j] = b(np.minimum(u, 1 - 1e-15), nu=d)
    return out / (hi - lo) ** d


def hermite(ne, lo, hi, x, d):
    w = (hi - lo) / ne
    e = np.clip(np.ceil((x - lo) / (hi - lo) * ne).astype(int), 1, ne) - 1
    s = np.clip((x - lo - w * e) / (w / 2) - 1, -1, 1)
    P = [np.poly1d([1, 0, -3, 2]) / 4, np.poly1d([-1, 0, 3, 2]) / 4, np.poly1d([1, -1, -1, 1]) / 4, np.poly1d([1, 1, -1, -1]) / 4]
    out = np.zeros((len(x), 2 * (ne + 1)))
    r = np.arange(len(x))
    for p, c in zip(P, (e, e + 1, ne + 1 + e, ne + 2 + e)):
        out[r, c] = (p.deriv(d) if d else p)(s)
    return out * (2 / w) ** d


class Spline:
    """The spline space, the energy and the objective that the options define."""

    def __init__(self, model, o, nx, data):
        self.nx = nx
        self.lim = np.array(U.decode(o["xlimits"]), float)
        if model == "RMTB":
            self.n = per_dim(o.get("num_ctrl_pts", 15), nx).astype(int)
            self.order = per_dim(o.get("order", 3), nx).astype(int)
            self.ne = self.n - self.order + 1
            self.one = lambda k, x, d: bspline(self.order[k], self.n[k], self.lim[k, 0], self.lim[k, 1], x, d)
        else:
            self.ne = per_dim(o.get("num_elements", 4), nx).astype(int)
            self.one = lambda k, x, d: hermite(self.ne[k], self.lim[k, 0], self.lim[k, 1], x, d)
        self.extra = o.get("extrapolate", False)
        self.p = int(o.get("approx_order", 4))
        smooth = per_dim(o.get("smoothness", 1.0), nx)
        q = self.grid(2 * self.ne, lambda m: (np.arange(m) + .5) / m)
        nw = self.basis(q[:1]).shape[1]
        self.H = np.eye(nw) * o.get("regularization_weight", 1e-14)
        if o.get("min_energy", True):
            for k in range(nx):
                J = self.basis(q, [2 * (j == k) for j in range(nx)])
                self.H += o.get("energy_weight", 1e-4) * smooth[k] * (J.T @ J) / len(q)
        self.terms = []
        for kind, lvl, k, x, y in data:
            d = [0] * nx
            c = 1.0
            if kind == "d":
                d[k] = 1
                c = o.get("grad_weight", .5) / nx
            self.terms.append((self.basis(x, d), np.asarray(y, float).reshape(len(x), -1), c))

    def grid(self, ms, f):
        g = [self.lim[k, 0] + f(int(m)) * (self.lim[k, 1] - self.lim[k, 0]) for k, m in enumerate(ms)]
        return np.array(np.meshgrid(*g, indexing="ij")).reshape(self.nx, -1).T

    def basis(self, x, d=None):
        d = d or [0] * self.nx
        out = np.ones((len(x), 1))
        for k in range(self.nx):
            b = self.one(k, x[:, k], d[k])
            out = np.einsum("ij,ik->ijk", out, b).reshape(len(x), -1)
        return out

    def predict(self, x, k=None):
        """Rows mapping the coefficients to the (derivatives of) predictions, extrapolated linearly if asked to."""
        b = np.clip(x, self.lim[:, 0], self.lim[:, 1])
        d = [int(j == k) for j in range(self.nx)]
        A = self.basis(b, d)
        if self.extra:
            for j in range(self.nx):
                if j == k:
                    continue
                dx = x[:, j] - b[:, j]
                if k is not None:
                    # beyond a bound of its own the function is linear in this variable
                    dx = np.where(x[:, k] == b[:, k], dx, 0.)
                A = A + dx[:, None] * self.basis(b, [d[i] + (i == j) for i in range(self.nx)])
        return A

    def func(self, w, iy):
        f = 0.5 * w @ self.H @ w
        for A, y, c in self.terms:
            f += 0.5 * c * np.sum((A @ w - y[:, iy]) ** self.p)
        return f

    def grad(self, w, iy):
        g = self.H @ w
        for A, y, c in self.terms:
            g = g + 0.5 * c * self.p * A.T @ (A @ w - y[:, iy]) ** (self.p - 1)
        return g

    def hess(self, w, iy, p=None):
        p = p or self.p
        h = self.H.copy()
        for A, y, c in self.terms:
            h += 0.5 * c * p * (p - 1) * A.T @ (((A @ w - y[:, iy]) ** (p - 2))[:, None] * A)
        return h

    def start(self, iy):
        """Minimum of the quadratic problem."""
        h, g = self.H.copy(), 0
        for A, y, c in self.terms:
            h += c * A.T @ A
            g = g + c * A.T @ y[:, iy]
        return np.linalg.lstsq(h, g, rcond=1e-15)[0], np.linalg.cond(h)

    def newton(self, iy, steps, tol):
        """Full Newton steps from the quadratic minimum; None when a step does not decrease the objective enough."""
        w = self.start(iy)[0]
        for _ in range(steps):
            g = self.grad(w, iy)
            if not np.linalg.norm(g) > tol:
                break
            h = self.hess(w, iy)
            if not np.linalg.cond(h) < 1e10:
                return None
            d = np.linalg.solve(h, -g)
            if not self.func(w + d, iy) <= self.func(w, iy) + 1e-3 * (g @ d):
                return None
            w = w + d
        return w


def differs(spec, sm, o, data, rec):
    """Why a trained spline is not the one that its options and data define, or None."""
    m, nx = spec["model"], spec["nx"]
    S = Spline(m, o, nx, data)
    q = S.grid(3 * S.ne * 2 + 3, lambda n: (np.arange(n) + .5) / n)
    A = S.basis(q)
    v = sm.predict_values(q.copy())
    if not np.all(np.isfinite(v)):
        rec.probe("diverging spline")
        return None
    size = np.max(np.abs(v)) + 1e-300
    w = np.linalg.lstsq(A, v, rcond=None)[0]
    e = np.max(np.abs(A @ w - v))
    rec.probe("spline space")
    if e > 1e-9 * size:
        return "the values leave the spline space by %.3g of their size" % (e / size)
    width = S.lim[:, 1] - S.lim[:, 0]
    x = np.vstack([q[:: max(1, len(q) // 4)], S.lim[:, 0], S.lim[:, 1], S.lim[:, 1] + .3 * width, S.lim[:, 0] - .2 * width,
                   S.lim[:, 0] + width * np.where(np.arange(nx) % 2, .4, 1.2)])
    g = sm.predict_values(x.copy())
    wsize = np.max(np.abs(w)) + size
    if not np.all(np.abs(S.predict(x) @ w - g) <= 1e-8 * wsize):
        return "values %s on and beyond the bounds, by the coefficients %s" % (U.short(g), U.short(S.predict(x) @ w))
    xi = x if S.extra else x[: -3]
    # where pieces meet (RMTC) second derivatives jump, and linear splines have no derivative there
    for k in range(nx):
        d = sm.predict_derivatives(xi.copy(), k)
        t = S.predict(xi, k) @ w
        if not np.all(np.abs(d - t) <= 1e-7 * wsize * max(S.ne) / width[k]):
            return "derivatives %s, by the coefficients %s" % (U.short(d), U.short(t))
    ls, solver = o.get("line_search", "backtracking"), o.get("solver", "krylov")
    for iy in range(v.shape[1]):
        w2, cond = S.start(iy)
        if not cond < (1e8 if solver in DIRECT else 1e4):
            rec.probe("ill-conditioned spline")
            continue
        f, f2, f0 = S.func(w[:, iy], iy), S.func(w2, iy), S.func(0 * w2, iy)
        rec.probe("spline objective")
        if S.p == 2 or ls in ("backtracking", "quadratic", "cubic"):
            if not f <= f2 * (1 + 1e-4) + (1e-12 if solver in DIRECT else 1e-6) * f0:
                return "objective of output %d is %.6g, its quadratic start has %.6g and zero coefficients %.6g" % (iy, f, f2, f0)
        if ls == "backtracking":
            wn = S.newton(iy, o.get("nonlinear_maxiter", 10), o.get("solver_tolerance", 1e-12))
            if wn is not None:
                rec.probe("spline solution")
                if not np.all(np.abs(A @ (wn - w[:, iy])) <= (1e-4 if solver in DIRECT else 1e-2) * size):
                    return "output %d is %.3g away from the solution of the problem" % (iy, np.max(np.abs(A @ (wn - w[:, iy]))))
    return outputs(S, sm, x[:2], w, data, rec)


def outputs(S, sm, x, w, data, rec):
    """Derivatives of the values with respect to the training outputs, by the implicit function theorem."""
    hs = [S.hess(w[:, iy], iy) for iy in range(w.shape[1])]
    if not all(np.linalg.cond(h) < 1e4 for h in hs):
        return None
    got = sm.predict_output_derivatives(x.copy())
    rec.probe("spline output derivatives")
    for (kind, lvl, k, xs, ys), (A, y, c) in zip(data, S.terms):
        J = np.asarray(got[k if kind == "d" else None])
        for iy, h in enumerate(hs):
            r = (A @ w[:, iy] - y[:, iy]) ** (S.p - 2)
            b = 0.5 * c * S.p * (S.p - 1) * A.T * r
            t = S.predict(x) @ np.linalg.solve(h, b)
            # (the iterative solvers take tiny right-hand sides for zero)
            big = np.linalg.norm(b, axis=0) > 1e-6
            if J.shape[:2] != t.shape or not np.all((np.abs(J[:, :, iy] - t) <= 1e-3 * (np.max(np.abs(t)) + 1))[:, big]):
                return "output derivatives of output %d are %s, by the implicit function theorem %s" % (iy, U.short(J[:, :, iy]), U.short(t))
    return None
