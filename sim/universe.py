"""The models under simulation: specifications (plain JSON), construction, data, requests.

A specification is a dict {"model", "opts", "nx", "ny", "nt", ...}; everything else (training data,
query points) derives from small integer seeds by this module's own generator, so a case file
describes a run completely.
"""
import math, random
import numpy as np


# ------------------------------------------------------------------ data
class Fn:
    """Smooth test function R^nx -> R^ny over a box, with derivatives; chosen by a seed."""

    def __init__(self, seed, nx, ny, lim, kind=None):
        r = random.Random("fn/%s/%s/%s" % (seed, nx, ny))
        self.lim = np.array(lim, float)
        self.kind = kind
        self.a = np.array([[r.uniform(-2, 2) for _ in range(nx)] for _ in range(ny)])
        self.b = np.array([[r.uniform(0.5, 4.0) for _ in range(nx)] for _ in range(ny)])
        self.c = np.array([[r.uniform(0, 6.0) for _ in range(nx)] for _ in range(ny)])
        self.d = np.array([r.uniform(-1, 1) for _ in range(ny)])
        self.e = np.array([r.uniform(-3, 3) for _ in range(ny)])
        self.scale = r.choice([1.0, 1.0, 1.0, 50.0, 0.02])

    def u(self, x):
        lo, hi = self.lim[:, 0], self.lim[:, 1]
        return (x - lo) / (hi - lo)

    def y(self, x):
        u = self.u(np.atleast_2d(x))
        out = np.empty((u.shape[0], len(self.a)))
        for j in range(len(self.a)):
            s = (self.a[j] * np.sin(self.b[j] * u + self.c[j])).sum(axis=1)
            out[:, j] = self.scale * (s + self.d[j] * u[:, 0] * u[:, -1] + self.e[j])
        return out

    def dy(self, x, k):
        u = self.u(np.atleast_2d(x))
        h = self.lim[k, 1] - self.lim[k, 0]
        out = np.empty((u.shape[0], len(self.a)))
        nx = u.shape[1]
        for j in range(len(self.a)):
            g = self.a[j, k] * self.b[j, k] * np.cos(self.b[j, k] * u[:, k] + self.c[j, k])
            if nx == 1:
                g = g + self.d[j] * 2 * u[:, 0]
            elif k == 0:
                g = g + self.d[j] * u[:, -1]
            elif k == nx - 1:
                g = g + self.d[j] * u[:, 0]
            out[:, j] = self.scale * g / h
        return out


def points(seed, n, nx, lim, margin=0.0):
    """n stratified points inside the box (distinct in every coordinate)."""
    r = random.Random("pt/%s/%s/%s" % (seed, n, nx))
    cols = []
    for k in range(nx):
        p = list(range(n))
        r.shuffle(p)
        cols.append([(i + 0.15 + 0.7 * r.random()) / n for i in p])
    u = np.array(cols).T.reshape(n, nx)
    u = margin + (1 - 2 * margin) * u
    lim = np.array(lim, float)
    return lim[:, 0] + u * (lim[:, 1] - lim[:, 0])


# ------------------------------------------------------------------ specifications
DEFLIM = {"unit": (0.0, 1.0), "wide": (-5.0, 7.0), "small": (1.0, 1.01), "big": (-2e3, 1e3)}

CAPS = {  # values v, input derivatives d, variances s, variance derivatives e, output derivatives o
    "RBF": "vdo", "IDW": "vdo", "LS": "vd", "QP": "vd", "RMTC": "vdo", "RMTB": "vdo",
    "KRG": "vdse", "KPLS": "vdse", "KPLSK": "vdse", "GEKPLS": "vds", "MGP": "vs",
    "GENN": "vd", "MFK": "vds", "MFKPLS": "vds", "MFKPLSK": "vds", "MOE": "vs", "VFM": "vd", "MIXINT": "vs",
}
CACHED = ("RBF", "IDW", "LS", "QP", "RMTC", "RMTB")
KRIGING = ("KRG", "KPLS", "KPLSK", "GEKPLS", "MGP", "MFK", "MFKPLS", "MFKPLSK")
LEVELS = ("MFK", "MFKPLS", "MFKPLSK")
SURROGATES = ("RBF", "IDW", "LS", "QP", "RMTC", "RMTB", "KRG", "KPLS", "KPLSK", "GEKPLS", "MGP", "GENN",
              "MFK", "MFKPLS", "MFKPLSK")
ARR = "__nd__"


def nd(v):
    return {ARR: [list(x) if isinstance(x, (list, tuple)) else x for x in v]}


def decode(v):
    if isinstance(v, dict) and ARR in v:
        return np.array(v[ARR], dtype=float)
    if isinstance(v, dict):
        return {k: decode(x) for k, x in v.items()}
    if isinstance(v, list):
        return [decode(x) for x in v]
    return v


def limits(r, nx, kinds=("unit", "unit", "wide", "big")):
    out = []
    for _ in range(nx):
        lo, hi = DEFLIM[r.choice(kinds)]
        out.append([lo, hi])
    return out


def maybe(r, p, d, k, v):
    if r.random() < p:
        d[k] = v


def gen_spec(r, models=SURROGATES, nx=None, small=False, het=True):
    m = r.choice(list(models))
    s = {"model": m}
    nx = nx or r.choice([1, 2, 2, 3])
    ny = 1
    o = {}
    if m in ("RMTC", "RMTB"):
        nx = min(nx, 2)
    lim = limits(r, nx)
    nt = r.randint(5, 9)
    levels = 1
    if m in ("RBF", "IDW", "LS", "QP", "RMTC", "RMTB", "GENN"):
        ny = r.choice([1, 1, 2, 3])
    if m == "RBF":
        nt = r.randint(5, 12)
        maybe(r, .7, o, "d0", r.choice([0.7, 2, 5.0, [r.choice([.5, 3.0]) for _ in range(nx)],
                                        nd([r.choice([.5, 3.0]) for _ in range(nx)])]))
        lim = limits(r, nx, ("unit", "unit", "wide"))
        maybe(r, .6, o, "poly_degree", r.choice([-1, 0, 1]))
        maybe(r, .4, o, "reg", r.choice([1e-10, 1e-6, 0.01, 0]))
    elif m == "IDW":
        maybe(r, .6, o, "p", r.choice([1, 2, 2.5, 3.5]))
    elif m == "LS":
        pass
    elif m == "QP":
        nt = (nx + 1) * (nx + 2) // 2 + r.randint(0, 4)
    elif m in ("RMTC", "RMTB"):
        o["xlimits"] = nd(lim)
        if m == "RMTC":
            maybe(r, .8, o, "num_elements", r.choice([2, 3, [r.choice([2, 3]) for _ in range(nx)], nd([2] * nx)]))
        else:
            o["num_ctrl_pts"] = r.choice([5, 6, [r.choice([5, 6]) for _ in range(nx)], nd([5] * nx)])
            maybe(r, .5, o, "order", r.choice([3, 4, [r.choice([3, 4]) for _ in range(nx)]]))
        maybe(r, .3, o, "smoothness", r.choice([1.0, 2.0, [r.choice([.5, 2.0]) for _ in range(nx)]]))
        maybe(r, .4, o, "approx_order", r.choice([2, 4]))
        maybe(r, .4, o, "nonlinear_maxiter", r.choice([1, 2, 5]))
        maybe(r, .3, o, "energy_weight", r.choice([1e-4, 1e-2]))
        maybe(r, .5, o, "regularization_weight", r.choice([1e-14, 1e-10, 1e-6, 1e-5]))
        maybe(r, .3, o, "extrapolate", True)
        maybe(r, .2, o, "min_energy", False)
        maybe(r, .5, o, "solver", r.choice(["dense-lu", "krylov-dense", "krylov", "lu", "ilu", "krylov-lu", "dense-chol"]))
        maybe(r, .4, o, "line_search", r.choice(["backtracking", "bracketed", "quadratic", "cubic", "null"]))
        maybe(r, .2, o, "grad_weight", r.choice([.5, 2.0]))
    elif m in KRIGING:
        nt = r.randint(6, 9) + (2 if nx == 3 else 0)
        if m != "MGP":
            maybe(r, .5, o, "poly", r.choice(["constant", "linear", "linear", "quadratic"]) if nx < 3 else r.choice(["constant", "linear"]))
            if o.get("poly") == "quadratic":
                nt += 4
            if m == "KRG" or m == "MFK":
                maybe(r, .5, o, "corr", r.choice(["squar_exp", "abs_exp", "matern32", "matern52"]))
            elif m in ("KPLS", "GEKPLS", "MFKPLS"):
                maybe(r, .4, o, "corr", r.choice(["squar_exp", "abs_exp"]))
            if m in ("KRG", "KPLS", "KPLSK"):
                maybe(r, .25, o, "hyper_opt", r.choice(["Cobyla", "TNC"]))
        if m in ("KPLS", "KPLSK", "GEKPLS", "MGP", "MFKPLS", "MFKPLSK"):
            maybe(r, .7, o, "n_comp", r.randint(1, nx))
        nc = o.get("n_comp", 1) if m in ("KPLS", "KPLSK", "GEKPLS", "MFKPLS", "MFKPLSK") else nx
        if m in LEVELS:
            levels = r.choice([1, 2, 2, 3])
            maybe(r, .3, o, "rho_regr", r.choice(["constant", "linear"]))
            maybe(r, .3, o, "theta0", [r.choice([.01, .1, 1.0])])
            if "theta0" in o:        # one for all, one per level, one per variable, or all of them
                v = o["theta0"][0]
                o["theta0"] = r.choice([[v], [v * 10 ** -l for l in range(levels)], [v * 3 ** j for j in range(nc)],
                                        nd([[v * 10 ** -l * 3 ** j for j in range(nc)] for l in range(levels)])])
            if o.get("poly") == "quadratic":
                o["poly"] = "linear"
            nt = max(nt, 2 * nx + 4)
        else:
            maybe(r, .4, o, "theta0", r.choice([[.1], [1.0], nd([.05]), [r.choice([.01, .5]) for _ in range(nc)],
                                                nd([r.choice([.01, .5]) for _ in range(nc)])])
                  if m != "MGP" else [r.choice([.01, .1])])
        maybe(r, .2, o, "theta_bounds", r.choice([[1e-6, 2e1], [1e-3, 1e1], [1e-2, 5.0]]))
        maybe(r, .2, o, "nugget", r.choice([1e-8, 2.220446049250313e-14]))
        if m in ("KRG", "KPLS", "KPLSK") and r.random() < .25:
            o["eval_noise"] = True
            maybe(r, .5, o, "noise0", [r.choice([1e-6, 1e-3])])
            if het and m == "KRG" and r.random() < .4:
                o["use_het_noise"] = True
        elif het and m == "KRG" and r.random() < .08:
            o["use_het_noise"] = True
            o["noise0"] = r.choice([[1e-3], [r.choice([1e-6, 1e-3, 1e-2]) for _ in range(nt)], nd([r.choice([1e-6, 1e-3, 1e-2]) for _ in range(nt)])])
        elif m in ("KRG", "KPLS", "MFK") and r.random() < .15:
            o["noise0"] = [r.choice([1e-4, 1e-2])]
        elif m == "MFK" and r.random() < .2:
            o["eval_noise"] = True
            maybe(r, .4, o, "optim_var", True)
            if het and r.random() < .4:
                o["use_het_noise"] = True
        if m == "GEKPLS":
            o["xlimits"] = nd(lim)
            maybe(r, .6, o, "extra_points", r.randint(0, nx))
            maybe(r, .3, o, "delta_x", r.choice([1e-4, 1e-2]))
            if nx == 1:
                o["extra_points"] = r.choice([0, 1])
    elif m == "GENN":
        nx = min(nx, 2)
        lim = lim[:nx]
        nt = r.randint(4, 7)
        ny = min(ny, 2)
        o.update(num_epochs=r.choice([1, 2]), num_iterations=r.choice([2, 4]), is_print=False,
                 deep=r.choice([1, 2]), wide=r.choice([2, 3]), mini_batch_size=r.choice([2, 3, 64]))
        maybe(r, .5, o, "seed", r.randint(0, 99))
        maybe(r, .3, o, "alpha", r.choice([.05, .5]))
        maybe(r, .3, o, "gamma", r.choice([0.0, 1.0]))
    s.update(nx=nx, ny=ny, nt=nt, lim=lim, opts=o)
    if levels > 1 or m in LEVELS:
        s["levels"] = levels
    s["deriv"] = bool(m in ("GENN", "GEKPLS") or (m in ("RMTC", "RMTB") and r.random() < .3))
    s["dup"] = bool(o.get("use_het_noise") and o.get("eval_noise") and r.random() < .7)
    return s


def classes():
    from smt import surrogate_models as sm
    from smt.applications import MFK, MFKPLS, MFKPLSK, MOE, VFM
    from smt.surrogate_models import GENN
    d = {n: getattr(sm, n) for n in ("RBF", "IDW", "LS", "QP", "RMTC", "RMTB", "KRG", "KPLS", "KPLSK", "GEKPLS", "MGP")}
    d.update(GENN=GENN, MFK=MFK, MFKPLS=MFKPLS, MFKPLSK=MFKPLSK)
    return d


def build(spec, **extra):
    o = {k: decode(v) for k, v in spec["opts"].items()}
    o.setdefault("print_global", False)
    o.update(extra)
    return classes()[spec["model"]](**o)


def training(spec, seed, nt=None):
    """Training data of a spec: list of (kind, level, k, x, y); kind 'v' or 'd'."""
    nx, ny = spec["nx"], spec["ny"]
    nt = nt or spec["nt"]
    fn = Fn(seed, nx, ny, spec["lim"])
    out = []
    lv = spec.get("levels", 1)
    xs = points(seed, nt, nx, spec["lim"], 0.02)
    if spec.get("dup"):
        xs = np.vstack([xs, xs[: max(1, nt // 3)]])
    for l in range(lv - 1):
        n2 = nt + 2 * (lv - 1 - l)
        xl = np.vstack([points("%s/%d" % (seed, l), n2 - nt + 2, nx, spec["lim"], 0.03), xs])
        yl = 0.8 * fn.y(xl) + 0.3 * (l + 1) * np.sum(fn.u(xl), axis=1, keepdims=True)
        out.append(("v", l, None, xl, yl))
    y = fn.y(xs)
    if spec.get("dup"):
        rr = random.Random("noise/%s" % (seed,))
        y = y + fn.scale * 0.05 * np.array([[rr.uniform(-1, 1)] for _ in range(len(xs))])
    out.append(("v", None, None, xs, y))
    if spec.get("deriv"):
        for k in range(nx):
            out.append(("d", None, k, xs, fn.dy(xs, k)))
    return out


def feed(sm, data):
    for kind, lvl, k, x, y in data:
        if kind == "v":
            sm.set_training_values(x, y, name=lvl)
        else:
            sm.set_training_derivatives(x, y, k, name=lvl)


def queries(spec, seed, n=4, outside=False):
    x = points("q/%s" % (seed,), n, spec["nx"], spec["lim"], 0.05)
    if outside:
        lim = np.array(spec["lim"], float)
        x = x + 0.2 * (lim[:, 1] - lim[:, 0])
    return x


def requests(spec):
    """Kinds of prediction requests the model supports."""
    c = CAPS[spec["model"]]
    out = ["v"]
    if "d" in c:
        out += ["d%d" % k for k in range(spec["nx"])]
    if "s" in c:
        out.append("s")
    if "e" in c:
        out.append("e")
    if "o" in c:
        out.append("o")
    if spec["model"] in LEVELS:
        out.append("a")
    if spec["model"] == "MGP":
        out.append("b")
        if spec["opts"].get("n_comp", 1) < spec["nx"]:
            out += ["w", "z"]
    return out


def ask(sm, req, x):
    if req == "v":
        return sm.predict_values(x)
    if req[0] == "d":
        return sm.predict_derivatives(x, int(req[1:]))
    if req == "s":
        return sm.predict_variances(x)
    if req == "e":
        return sm.predict_variance_derivatives(x)
    if req == "o":
        d = sm.predict_output_derivatives(x)
        return np.concatenate([np.asarray(d[k]).reshape(len(x), -1) for k in sorted(d, key=lambda k: -1 if k is None else k)], axis=1)
    if req == "a":                       # variances of all levels and the products of their scale factors
        a, b = sm.predict_variances_all_levels(x)
        return np.concatenate([np.asarray(a).reshape(len(x), -1)] + [np.asarray(c).reshape(len(x), -1) for c in b], axis=1)
    if req == "b":
        return np.concatenate([np.asarray(a).reshape(len(x), -1) for a in sm.predict_variances(x, True)], axis=1)
    if req == "w":                       # in the embedded space
        u = sm.get_u_from_x(x)
        return np.concatenate([np.asarray(sm.predict_values(u)).reshape(len(x), -1), sm.get_x_from_u(u)], axis=1)
    if req == "z":
        return np.concatenate([np.asarray(a).reshape(len(x), -1) for a in sm.predict_variances(sm.get_u_from_x(x), True)], axis=1)
    raise ValueError(req)


# ------------------------------------------------------------------ outcomes
class Out:
    """Outcome of an operation: a value or an error type."""
    __slots__ = ("ok", "v", "err", "msg")

    def __init__(self, ok, v=None, err=None, msg=""):
        self.ok, self.v, self.err, self.msg = ok, v, err, msg

    def __repr__(self):
        if self.ok:
            return "ok " + short(self.v)
        return "%s(%s)" % (self.err, self.msg[:120])


def short(v):
    if isinstance(v, np.ndarray):
        f = v.ravel()[:4]
        return "%s[%s%s]" % (v.shape, ", ".join("%.9g" % t for t in f), ", ..." if v.size > 4 else "")
    return repr(v)[:80]


def outcome(fn, *a, **k):
    try:
        return Out(True, fn(*a, **k))
    except Exception as e:
        return Out(False, err=type(e).__name__, msg=str(e))


def same(a, b, rtol=1e-8, atol=0.0):
    """Same outcome: equal error types, or values equal up to rtol of their magnitude."""
    if a.ok != b.ok:
        return False
    if not a.ok:
        return a.err == b.err
    return close(a.v, b.v, rtol, atol)


def close(x, y, rtol=1e-8, atol=0.0):
    if x is None or y is None:
        return x is None and y is None
    x, y = np.asarray(x, float), np.asarray(y, float)
    if x.shape != y.shape:
        return False
    if x.size == 0 or np.array_equal(x, y, equal_nan=True):
        return True
    nx_, ny_ = np.isfinite(x), np.isfinite(y)
    if not np.array_equal(nx_, ny_):
        return False
    if not nx_.any():
        return bool(np.array_equal(np.isnan(x), np.isnan(y)))
    m = max(np.max(np.abs(x[nx_])), np.max(np.abs(y[ny_])))
    return bool(np.all(np.abs(x[nx_] - y[ny_]) <= rtol * m + atol))


def maxdiff(x, y):
    try:
        return float(np.nanmax(np.abs(np.asarray(x, float) - np.asarray(y, float))))
    except Exception:
        return float("nan")


class Ref(object):
    """Answers of a reference model to the probe requests of a spec."""

    def __init__(self, sm, spec, probes):
        self.ans = {}
        for q in probes:
            x = queries(spec, q[1], q[2])
            self.ans[tuple(q)] = outcome(ask, sm, q[0], x)


def probes(spec, seed=0, n=3, kinds=None):
    return [(k, seed, n) for k in (kinds or requests(spec))]


def compare(sm, ref, spec, rtol=1e-8):
    """First probe on which sm differs from the reference answers, or None."""
    for q, want in ref.ans.items():
        x = queries(spec, q[1], q[2])
        got = outcome(ask, sm, q[0], x)
        if not same(got, want, rtol):
            return q, got, want
    return None


def train(sm, npseed):
    np.random.seed(npseed)
    return outcome(sm.train)
