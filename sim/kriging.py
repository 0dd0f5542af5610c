"""A small executable reference for Kriging and co-Kriging, in extended precision.

Given the data, the options and the hyperparameters a training ended with, it states what the model's
values and variances are by definition (best linear unbiased prediction).  It shares no code with SMT.
"""
import numpy as np
from . import universe as U

L = np.longdouble
CORR = {
    "squar_exp": lambda d, t: np.exp(-np.sum(t * d * d, axis=-1)),
    "abs_exp": lambda d, t: np.exp(-np.sum(t * d, axis=-1)),
    "matern52": lambda d, t: np.prod(1 + np.sqrt(L(5)) * t * d + L(5) / 3 * (t * d) ** 2, axis=-1) * np.exp(-np.sqrt(L(5)) * np.sum(t * d, axis=-1)),
    "matern32": lambda d, t: np.prod(1 + np.sqrt(L(3)) * t * d, axis=-1) * np.exp(-np.sqrt(L(3)) * np.sum(t * d, axis=-1)),
}


def trend(kind, x):
    n = len(x)
    c = [np.ones((n, 1), dtype=L)]
    if kind in ("linear", "quadratic"):
        c.append(x)
    if kind == "quadratic":
        for k in range(x.shape[1]):
            c.append(x[:, k:k + 1] * x[:, k:])
    return np.hstack(c)


def chol(a):
    n = len(a)
    c = np.zeros((n, n), dtype=L)
    for j in range(n):
        s = a[j, j] - np.dot(c[j, :j], c[j, :j])
        if not s > 0:
            raise np.linalg.LinAlgError("not positive definite")
        c[j, j] = np.sqrt(s)
        for i in range(j + 1, n):
            c[i, j] = (a[i, j] - np.dot(c[i, :j], c[j, :j])) / c[j, j]
    return c


def solve(c, b):
    """Solution for the matrix whose Cholesky factor is c."""
    b = np.array(b, dtype=L)
    n = len(c)
    for i in range(n):
        b[i] = (b[i] - c[i, :i] @ b[:i]) / c[i, i]
    for i in reversed(range(n)):
        b[i] = (b[i] - c[i + 1:, i] @ b[i + 1:]) / c[i, i]
    return b


class Wrong(Exception):
    """The data a model was built on are not what its definition states."""


class Level:
    """One stage of universal Kriging on normalised data with given trend columns."""

    def __init__(self, x, y, F, theta, corr, diag, coeff, dof):
        self.x, self.theta, self.corr, self.coeff = x, np.array(theta, dtype=L).ravel(), corr, coeff
        self.F = F
        R = self.r(x)
        R[np.diag_indices(len(x))] = 1 + np.array(diag, dtype=L)
        self.cond = float(np.linalg.cond(R.astype(float)))
        self.c = chol(R)
        RF = solve(self.c, F)
        self.cF = chol(F.T @ RF)
        self.condF = float(np.linalg.cond((F.T @ RF).astype(float)))
        self.beta = solve(self.cF, RF.T @ y)
        e = y - F @ self.beta
        self.gamma = solve(self.c, e)
        self.q = (e.T @ self.gamma)[0, 0]
        self.sigma2 = self.q / dof

    def r(self, z):
        d = np.abs(z[:, None, :] - self.x[None, :, :])
        if self.corr == "act_exp":
            A = self.theta.reshape(-1, z.shape[1]).T
            return np.exp(-np.sum(((z[:, None, :] - self.x[None, :, :]) @ A) ** 2, axis=-1) / 2)
        if self.coeff is not None:
            d = np.sqrt((d ** 2) @ self.coeff ** 2) if self.corr == "squar_exp" else d @ np.abs(self.coeff)
        return CORR[self.corr](d, self.theta)

    def mean(self, z, f):
        return f @ self.beta + self.r(z) @ self.gamma

    def parts(self, z, f):
        """1 - r' R^-1 r, and u' (F' R^-1 F)^-1 u."""
        r = self.r(z).T
        k = solve(self.c, r)
        u = f.T - self.F.T @ k
        return 1 - np.sum(r * k, axis=0), np.sum(u * solve(self.cF, u), axis=0)

    def beta_cov(self, k):
        return solve(self.cF, np.eye(len(self.cF), dtype=L))[:k, :k]


def std(a):
    s = np.std(a, axis=0, ddof=1)
    s[s == 0] = 1
    return np.mean(a, axis=0), s


def pls(x, y, n):
    from sklearn.cross_decomposition import PLSRegression
    return np.array(PLSRegression(n).fit(x.copy(), y.copy()).x_rotations_, dtype=L)


def unique(x, y, noise0):
    """Repeated points merged: points, mean outputs, and the estimated variances of these means."""
    pts = sorted(set(map(tuple, x.tolist())))
    m, v = [], []
    for p in pts:
        g = y[[tuple(q) == p for q in x.tolist()], 0]
        m.append(np.mean(g))
        e = np.sum((g - np.mean(g)) ** 2)
        v.append((e / (len(g) - 1) if e > 0 else noise0) / len(g))
    return np.array(pts, dtype=float), np.array(m, dtype=L)[:, None], np.array(v, dtype=L)


def taylor(sm, o, arrays):
    """GEKPLS: (inputs and outputs including the points its trainings add, why they are not first-order points)."""
    x, y = next((np.array(e[3], float), np.array(e[4], float)) for e in arrays if e[0] == "v")
    dy = {e[2]: np.array(e[4], float) for e in arrays if e[0] == "d"}
    n, extra = len(x), o.get("extra_points", 0)
    X = sm.X_norma * sm.X_scale + sm.X_offset
    Y = np.reshape(sm.y_norma, (-1, 1)) * sm.y_std + sm.y_mean
    lim = np.array(o["xlimits"], float)
    step = o.get("delta_x", 1e-4) * (lim[:, 1] - lim[:, 0])
    if len(X) != n * (1 + extra):
        return None, None, "%d points with %d extra points each make a model of %d points" % (n, extra, len(X))
    # the first direction of a local first-order expansion over a balanced design is that of the scaled gradient
    g = np.stack([np.ravel(dy[k]) for k in range(x.shape[1])], axis=1) * step
    size = np.linalg.norm(g, axis=1)
    if np.all(size > 1e-8 * np.max(np.abs(y)) + 1e-300) and np.all(step > 1e-8 * np.max(np.abs(x), axis=0)):
        u = np.abs(g) / size[:, None]
        got = np.asarray(sm.coeff_pls, float)[:, 0]
        if not np.max(np.abs(got - u.mean(axis=0))) <= 1e-3:
            return None, None, "first PLS coefficients %s, the gradients give %s" % (got, u.mean(axis=0))
    else:
        u = None
    want = {}
    ex, ey = [], []
    for j in range(n * extra):
        i = j // extra
        d = X[n + j] - x[i]
        k = int(np.argmax(np.abs(d) / step))
        if not abs(abs(d[k]) - step[k]) <= 1e-6 * step[k] + 1e-12 * np.max(np.abs(x)) or np.any(np.abs(np.delete(d, k)) > 1e-9 * np.max(np.abs(X))):
            return None, None, "extra point %s is not one step from training point %s" % (X[n + j], x[i])
        want.setdefault(i, set()).add(k)
        if u is not None and np.sum(u[i] > u[i, k] + 1e-3) >= extra:
            return None, None, "extra point along variable %d, coefficients %s" % (k, u[i])
        sg = np.sign(d[k])
        z = x[i].copy()
        z[k] += sg * step[k]
        ex.append(z)
        ey.append(y[i, 0] + dy[k][i, 0] * sg * step[k])
        if not abs(ey[-1] - Y[n + j, 0]) <= 1e-9 * (np.max(np.abs(Y)) + abs(dy[k][i, 0] * step[k])):
            return None, None, "extra point has value %r, first-order value %r" % (Y[n + j, 0], ey[-1])
    if any(len(w) != extra for w in want.values()):
        return None, None, "extra points of one training point coincide"
    if extra:
        x, y = np.vstack([x] + [e[None] for e in ex]), np.vstack([y, np.array(ey)[:, None]])
    return x, y, None


class Reference:
    """Values and variances of a trained session's model; None where the reference does not apply."""

    def __init__(self, spec, sm, opts, arrays):
        m = spec["model"]
        o = {k: U.decode(v) for k, v in opts.items()}
        vals = [(e[1], np.array(e[3], float), np.array(e[4], float)) for e in arrays if e[0] == "v"]
        low = sorted([e for e in vals if e[0] is not None], key=lambda e: e[0])
        lv = [(e[1], e[2]) for e in low] + [(e[1], e[2]) for e in vals if e[0] is None]
        self.nlv = len(lv)
        x, y = np.vstack([a for a, _ in lv]), np.vstack([b for _, b in lv])
        if m == "GEKPLS":
            x, y, why = taylor(sm, o, arrays)
            if why:
                raise Wrong(why)
            lv = [(x, y)]
        (self.xm, self.xs), (self.ym, self.ys) = std(x.astype(L)), std(y.astype(L))
        corr = "act_exp" if m == "MGP" else o.get("corr", "squar_exp")
        poly, rho = o.get("poly", "constant"), o.get("rho_regr", "constant")
        coeff = None
        if m in ("KPLS", "MFKPLS"):
            coeff = pls(lv[-1][0], lv[-1][1], o.get("n_comp", 1))
        elif m == "GEKPLS":
            coeff = np.array(sm.coeff_pls, dtype=L)
        nug = 0.0 if o.get("eval_noise") else o.get("nugget", 100 * np.finfo(float).eps)
        multi = m.startswith("MFK")
        th = sm.optimal_theta if multi else [sm.optimal_theta]
        noise = sm.optimal_noise_all if multi else [sm.optimal_noise]
        self.multi, self.plsv = multi, m in ("MFKPLS", "MFKPLSK")
        self.poly, self.rho = poly, rho
        self.lv = []
        het = bool(o.get("use_het_noise"))
        n0 = np.ravel(np.array(o.get("noise0", [0.0]), float))
        for l, (a, b) in enumerate(lv):
            if het and o.get("eval_noise"):
                a, b, v = unique(a, (b.astype(L) - self.ym) / self.ys, n0[0])
                b = b * self.ys + self.ym
            elif het:
                v = n0 * np.ones(len(a))
            else:
                v = float(np.ravel(noise[l])[0])
            xn, yn = (a - self.xm) / self.xs, (b - self.ym) / self.ys
            F = trend(poly, xn)
            p, q = F.shape[1], 0
            if l:
                g = trend(rho, xn)
                q = g.shape[1]
                F = np.hstack([g * self._mean(xn, l), F])
            self.lv.append(Level(xn, yn, F, th[l], corr, nug + v, coeff, len(a) - (p + q if multi else 0)))
            self.lv[-1].p, self.lv[-1].nq = p, q
        self.cond = max(v.cond for v in self.lv)
        self.condF = max(v.condF for v in self.lv)

    def _mean(self, z, n):
        mu = None
        for l in range(n):
            f = trend(self.poly, z)
            if l:
                f = np.hstack([trend(self.rho, z) * mu, f])
            mu = self.lv[l].mean(z, f)
        return mu

    def values(self, z, n=None):
        z = (np.array(z, dtype=L) - self.xm) / self.xs
        return (self._mean(z, n or self.nlv) * self.ys + self.ym).astype(float)

    def variances(self, z):
        """One column per level."""
        z = (np.array(z, dtype=L) - self.xm) / self.xs
        out, mse = [], None
        for l, v in enumerate(self.lv):
            f = trend(self.poly, z)
            if l:
                g = trend(self.rho, z)
                f = np.hstack([g * self._mean(z, l), f])
            a, u = v.parts(z, f)
            if not l:
                mse = v.sigma2 * (a + u)
            else:
                b = v.beta[:v.nq]
                sr = np.sum((g @ (v.sigma2 * v.beta_cov(v.nq) + b @ b.T)) * g, axis=1)
                if self.plsv:
                    mse = sr * mse + v.q / (2 * (len(v.x) - v.p - v.nq)) * a + v.sigma2 * u
                else:
                    mse = sr * mse + v.sigma2 * (a + u)
            out.append(mse * self.ys[0] ** 2)
        return np.maximum(np.array(out).T.astype(float), 0)


def applies(spec, opts):
    if opts.get("use_het_noise") and opts.get("eval_noise") and np.size(U.decode(opts.get("noise0", [0.0]))) > 1:
        return False                       # which of the starting values belongs to which merged point is not stated
    return spec["model"] in U.KRIGING and not opts.get("optim_var")


def differs(spec, sm, opts, arrays, x, rec):
    """Why the model's answers at x are not those of the reference, or None."""
    if not applies(spec, opts) or getattr(sm, "optimal_theta", None) is None or not hasattr(sm, "optimal_noise_all" if spec["model"].startswith("MFK") else "optimal_noise"):
        return None
    try:
        ref = Reference(spec, sm, opts, arrays)
    except Wrong as e:
        return str(e)
    if not (ref.cond < 1e9 and ref.condF < 1e12):
        rec.probe("kriging reference: too ill-conditioned")
        return None
    rec.probe("kriging reference")
    rec.probe("kriging reference: " + spec["model"] + (" het" if opts.get("use_het_noise") else ""))
    tol = 1e-6 if ref.cond < 1e7 else 1e-4
    v = sm.predict_values(x.copy())
    w = ref.values(x)
    ys = float(ref.ys[0])
    if not np.all(np.abs(v.reshape(w.shape) - w) <= tol * (ys + np.abs(w))):
        return "values %s, by definition %s (condition %.2g)" % (U.short(v), U.short(w), ref.cond)
    s = sm.predict_variances(x.copy()) if spec["model"] != "MGP" else sm.predict_variances(x.copy(), True)[1]
    t = ref.variances(x)
    top = t[:, -1]
    # a trend that fits the data exactly leaves nothing but rounding in the variances
    scale = float(max(l.sigma2 for l in ref.lv)) * ys ** 2 + np.max(top) + 1e-19 / tol * max(1.0, ref.cond) * ys ** 2
    if not np.all(np.abs(np.ravel(s) - top) <= 10 * tol * scale + tol * top):
        return "variances %s, by definition %s (condition %.2g)" % (U.short(s), U.short(top), ref.cond)
    if spec["model"] == "MGP":
        return embedded(sm, opts, x, np.ravel(w), np.ravel(top), tol, ys, scale)
    if ref.nlv > 1 and not ref.plsv:
        allv = sm.predict_variances_all_levels(x.copy())[0]
        if np.shape(allv) != t.shape or not np.all(np.abs(allv - t) <= 10 * tol * scale + tol * t):
            return "variances of all levels %s, by definition %s" % (U.short(allv), U.short(t))
        for l in range(1, ref.nlv if hasattr(sm, "_predict_intermediate_values") else 0):
            v, w = sm._predict_intermediate_values(x.copy(), l), ref.values(x, l)
            if not np.all(np.abs(v.reshape(w.shape) - w) <= tol * (ys + np.abs(w))):
                return "values of level %d: %s, by definition %s" % (l, U.short(v), U.short(w))
    return None


def embedded(sm, opts, x, val, var, tol, ys, scale):
    """MGP: the embedding is a linear map with a right inverse, and the model lives in it."""
    if U.decode(opts).get("n_comp", 1) >= x.shape[1]:
        return None
    u = sm.get_u_from_x(x.copy())
    b = sm.get_u_from_x(sm.get_x_from_u(u.copy()))
    m = np.max(np.abs(u)) + np.max(np.abs(x))
    if np.linalg.cond(sm.get_u_from_x(np.eye(x.shape[1]))) > 1e6:
        return None
    if not np.all(np.abs(u - b) <= 1e-8 * m):
        return "embedding: u %s comes back as %s" % (U.short(u), U.short(b))
    v = np.ravel(sm.predict_values(u.copy()))
    if not np.all(np.abs(v - val) <= 10 * tol * (ys + np.abs(val))):
        return "values at embedded points %s, at the points %s" % (U.short(v), U.short(val))
    v = np.ravel(sm.predict_variances(u.copy(), True)[1])
    if not np.all(np.abs(v - var) <= 100 * tol * scale + 10 * tol * var):
        return "variances at embedded points %s, at the points %s" % (U.short(v), U.short(var))
    return None


# ------------------------------------------------------------------ the simpler models
def gauss(a, b):
    """Solution of a x = b by elimination with pivoting in extended precision."""
    a, b = np.array(a, dtype=L), np.array(b, dtype=L)
    n = len(a)
    for j in range(n):
        p = j + int(np.argmax(np.abs(a[j:, j])))
        if a[p, j] == 0:
            raise np.linalg.LinAlgError("singular")
        if p != j:
            a[[j, p]], b[[j, p]] = a[[p, j]], b[[p, j]]
        f = a[j + 1:, j] / a[j, j]
        a[j + 1:] -= f[:, None] * a[j]
        b[j + 1:] -= f[:, None] * b[j]
    for j in reversed(range(n)):
        b[j] = (b[j] - a[j, j + 1:] @ b[j + 1:]) / a[j, j]
    return b


def simple(spec, opts, xt, yt, x):
    """(values at x by definition, condition) of RBF, IDW, LS and QP, or (None, 0)."""
    m = spec["model"]
    o = {k: U.decode(v) for k, v in opts.items()}
    xt, yt, x = (np.array(a, dtype=L) for a in (xt, yt, x))
    if m == "IDW":
        d = np.sqrt(np.sum((x[:, None] - xt[None]) ** 2, axis=-1))
        if np.min(d) < 1e-9 * np.max(np.ptp(xt, axis=0)):
            return None, 0
        w = d ** -L(o.get("p", 2.5))
        return (w / np.sum(w, axis=1, keepdims=True)) @ yt, 1
    if m == "RBF":
        d0 = np.ones(spec["nx"], dtype=L) * np.array(o.get("d0", 1.0), dtype=L)
        deg = o.get("poly_degree", -1)

        def basis(z):
            return np.hstack([np.exp(-np.sum(((z[:, None] - xt[None]) / d0) ** 2, axis=-1))]
                             + ([np.ones((len(z), 1), dtype=L)] if deg >= 0 else []) + ([z] if deg == 1 else []))
        n = len(xt)
        A = np.zeros((n + (deg >= 0) + spec["nx"] * (deg == 1),) * 2, dtype=L)
        A[:n] = basis(xt)
        A[:, :n] = A[:n].T
        A[np.arange(n), np.arange(n)] += L(o.get("reg", 1e-10))
        rhs = np.zeros((len(A), yt.shape[1]), dtype=L)
        rhs[:n] = yt
        return basis(x) @ gauss(A, rhs), float(np.linalg.cond(A.astype(float)))
    if m in ("LS", "QP"):
        def basis(z):
            c = (z - c0) / s0
            return trend("linear" if m == "LS" else "quadratic", c)
        c0, s0 = np.mean(xt, axis=0), np.ptp(xt, axis=0)
        F = basis(xt)
        k = float(np.linalg.cond(F.astype(float)))
        if len(F) < F.shape[1] or k > 1e6:
            return None, 0
        raw = trend("linear" if m == "LS" else "quadratic", xt)
        return basis(x) @ gauss(F.T @ F, F.T @ yt), float(np.linalg.cond(raw.astype(float))) ** 2
    return None, 0


def simple_differs(spec, sm, opts, xt, yt, x, rec):
    want, cond = simple(spec, opts, xt, yt, x)
    if want is None or not cond < 1e10:
        return None
    rec.probe("closed-form reference")
    got = sm.predict_values(x.copy())
    scale = np.max(np.abs(yt)) + np.max(np.abs(want))
    if got.shape != want.shape or not np.all(np.abs(got - want) <= (1e-8 + 1e-15 * cond * 10) * scale):
        return "values %s, by definition %s (condition %.2g)" % (U.short(got), U.short(want.astype(float)), cond)
    return None
