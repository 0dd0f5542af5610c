"""Optimization runs (EGO) under simulation: specifications, objective, evaluators, the account that must hold."""
import random
import numpy as np
from . import universe as U, inject


def gen_types(r):
    """(xtypes, xlimits) of 1-4 mixed variables, at least one of them discrete."""
    n = r.choice([1, 2, 2, 3])
    kinds = [r.choice(["F", "I", "E"]) for _ in range(n)]
    if all(k == "F" for k in kinds):
        kinds[r.randrange(n)] = r.choice(["I", "E"])
    xt, xl = [], []
    for k in kinds:
        if k == "F":
            xt.append("F")
            xl.append(r.choice([[0.0, 1.0], [-5.0, 7.0], [-10.0, -3.0]]))
        elif k == "I":
            xt.append("I")
            xl.append(r.choice([[0, 3], [-2, 2], [1, 9], [-100, 100], [0, 1]]))
        else:
            m = r.choice([2, 3, 4])
            xt.append(["E", m])
            xl.append(["a", "b", "c", "d"][:m])
    return xt, xl


def types(xt):
    from smt.applications.mixed_integer import FLOAT, INT, ENUM
    return [{"F": FLOAT, "I": INT}[t] if isinstance(t, str) else (ENUM, t[1]) for t in xt]


def box(xt, xl):
    """Bounds of the folded space."""
    return [[float(l[0]), float(l[1])] if isinstance(t, str) else [0.0, float(t[1] - 1)] for t, l in zip(xt, xl)]


def unfolded(xt, xl):
    out = []
    for t, l in zip(xt, xl):
        out += [[float(l[0]), float(l[1])]] if isinstance(t, str) else [[0.0, 1.0]] * t[1]
    return np.array(out)


def feasible(xt, xl, x, folded=True):
    """Why a row is infeasible, or None."""
    j = 0
    for i, (t, l) in enumerate(zip(xt, xl)):
        if isinstance(t, str) or folded:
            lo, hi = box(xt, xl)[i]
            v = x[j]
            j += 1
            if not (lo - 1e-9 * (hi - lo) <= v <= hi + 1e-9 * (hi - lo)):
                return "variable %d is %.17g outside [%g, %g]" % (i, v, lo, hi)
            if t != "F" and v != np.round(v):
                return "variable %d is %.17g, not a whole number" % (i, v)
        else:
            w = np.asarray(x[j:j + t[1]])
            j += t[1]
            if not (np.sum(w == 1) == 1 and np.sum(w == 0) == t[1] - 1):
                return "variable %d is %s, not exactly one level" % (i, list(w))
    return None


def fold(xt, x):
    """Reference folding of feasible rows."""
    out = []
    for row in np.atleast_2d(x):
        j, o = 0, []
        for t in xt:
            if isinstance(t, str):
                o.append(row[j])
                j += 1
            else:
                o.append(float(list(row[j:j + t[1]]).index(max(row[j:j + t[1]]))))
                j += t[1]
        out.append(o)
    return np.array(out)


def gen_spec(r, mixed=None):
    mixed = r.random() < .35 if mixed is None else mixed
    s = {"mixed": mixed}
    if mixed:
        s["xt"], s["xl"] = gen_types(r)
        s["lim"] = box(s["xt"], s["xl"])
        nx = len(unfolded(s["xt"], s["xl"]))
    else:
        nx = r.choice([1, 1, 2, 2])
        s["lim"] = U.limits(r, nx, ("unit", "wide"))
    s["nx"] = len(s["lim"])
    s["fn"] = r.randint(0, 40)
    s["doe"] = r.choice(["n", "n", "x", "xy"])
    s["ndoe"] = max(4, nx + 2) + r.choice([0, 1, 3])
    o = s["opts"] = {}
    o["n_iter"] = r.choice([1, 1, 2, 2, 3])
    o["criterion"] = r.choice(["EI", "EI", "SBO", "UCB"])
    o["n_start"] = r.choice([1, 2, 3])
    if r.random() < .5:
        o["n_max_optim"] = r.choice([1, 1, 2, 3])
    if r.random() < .5:
        o["n_parallel"] = r.choice([1, 2, 3])
        o["qEI"] = r.choice(["KB", "KBLB", "KBUB", "KBRand", "CLmin"])
    if r.random() < .12 and o["criterion"] == "EI":
        o["enable_tunneling"] = True
        o["n_start"], o["n_iter"] = 1, 1
    if r.random() < .9:
        o["random_state"] = r.randint(0, 99)
    s["evaluator"] = r.choice(["default", "default", "rows", "reversed", "shuffled", "buffer"])
    s["sm"] = None
    if r.random() < .7:
        m = r.choice(["KRG", "KRG", "KPLS", "KPLSK"])
        so = {"nugget": 1e-8} if r.random() < .6 else {}
        if r.random() < .4:
            so["theta0"] = [r.choice([.01, .5])]
        if m == "KRG" and r.random() < .3:
            so["corr"] = r.choice(["abs_exp", "matern52"])
        if not mixed and r.random() < .2:
            so["poly"] = "linear" if s["ndoe"] >= nx + 3 else "constant"
        if m in ("KPLS", "KPLSK") and nx > 1 and r.random() < .5:
            so["n_comp"] = 1
        s["sm"] = [m, so]
    return s


class Objective:
    """Pure function of a point in the folded space; keeps a log of every evaluation."""

    def __init__(self, spec, scribble=False):
        self.spec = spec
        self.f = U.Fn("ego/%s" % spec["fn"], spec["nx"], 1, spec["lim"])
        self.log = []              # (point, value) in order of evaluation
        self.calls = 0
        self.scribble = scribble
        self.before = None         # hook(call number)
        self.sizes = []

    def value(self, x):
        return self.f.y(np.atleast_2d(x))

    def __call__(self, x):
        n = self.calls
        self.calls += 1
        if self.before is not None:
            self.before(n)
        x = np.asarray(x)
        y = self.value(x)
        self.sizes.append(len(y))
        for a, b in zip(np.atleast_2d(x), y):
            self.log.append((np.array(a, float), float(b[0])))
        if self.scribble and x.flags.writeable:
            x[...] = -777.25
        return y


def evaluator(kind, seed=0, hook=None):
    from smt.applications.ego import Evaluator
    if kind == "default" and hook is None:
        return None

    class Ev(Evaluator):
        n, buf = 0, None
        log = None                 # the objective's log, to be kept in the order of the request

        def run(self, fun, x):
            k = self.n
            self.n += 1
            if hook is not None:
                r = hook(k, fun, x)
                if r is not None:
                    return r
            if kind == "default":
                return fun(x)
            idx = list(range(len(x)))
            if kind == "reversed":
                idx.reverse()
            elif kind == "shuffled":
                random.Random("%s/%s" % (seed, k)).shuffle(idx)
            out = [None] * len(x)
            start = len(self.log) if self.log is not None else 0
            for i in idx:
                out[i] = float(np.ravel(fun(np.array(x[i:i + 1])))[0])
            if self.log is not None:
                done = self.log[start:]
                for i, e in zip(idx, done):
                    self.log[start + i] = e
            if kind == "buffer":   # results come in one array that is reused
                if self.buf is None or len(self.buf) < len(out):
                    self.buf = np.empty((max(len(out), 8), 1))
                self.buf[: len(out), 0] = out
                return self.buf[: len(out)]
            return np.array(out).reshape(-1, 1)
    return Ev()


def doe(spec):
    """Initial points in the folded space."""
    x = U.points("doe/%s" % spec["fn"], spec["ndoe"], spec["nx"], spec["lim"], 0.01)
    if spec["mixed"]:
        for i, t in enumerate(spec["xt"]):
            if t != "F":
                x[:, i] = np.round(x[:, i])
    return x


def build(spec, ev=None, sm=None, **extra):
    from smt.applications import EGO
    o = dict(spec["opts"])
    if spec["mixed"]:
        o["xtypes"] = types(spec["xt"])
        o["xlimits"] = np.array(spec["xl"], dtype=object) if len({len(l) for l in spec["xl"]}) > 1 else np.array(spec["xl"])
    else:
        o["xlimits"] = np.array(spec["lim"], float)
    if spec["doe"] == "n":
        o["n_doe"] = spec["ndoe"]
    else:
        o["xdoe"] = doe(spec)
        if spec["doe"] == "xy":
            o["ydoe"] = Objective(spec).value(doe(spec))
    if sm is not None:
        o["surrogate"] = sm
    elif spec["sm"]:
        o["surrogate"] = surrogate(spec)
    if ev is not None:
        o["evaluator"] = ev
    o.update(extra)
    return EGO(**o)


def surrogate(spec):
    m, so = spec["sm"]
    return U.classes()[m](print_global=False, **{k: U.decode(v) for k, v in so.items()})


def account(spec, res, log, strict=True):
    """Why the returned record is not a true account of the evaluations `log`: (class, detail) or None."""
    x_opt, y_opt, ind, X, Y = res
    X, Y = np.asarray(X, float), np.asarray(Y, float)
    nd = spec["ndoe"]
    par = spec["opts"].get("n_parallel", 1)
    budget = nd + spec["opts"]["n_iter"] * par
    if X.ndim != 2 or Y.shape != (len(X), 1):
        return "record-shape", "points %s, values %s" % (X.shape, Y.shape)
    if len(X) > budget or (strict and len(X) != budget):
        return "budget", "%d points recorded, %d starting points and %d iterations of %d" % (len(X), nd, spec["opts"]["n_iter"], par)
    lim = unfolded(spec["xt"], spec["xl"]) if spec["mixed"] else np.array(spec["lim"], float)
    if X.shape[1] != len(lim):
        return "record-shape", "points %s for %d variables" % (X.shape, len(lim))
    w = lim[:, 1] - lim[:, 0]
    if np.any(X < lim[:, 0] - 1e-9 * w) or np.any(X > lim[:, 1] + 1e-9 * w) or not np.all(np.isfinite(X)):
        return "out-of-bounds", U.short(X[np.any((X < lim[:, 0] - 1e-9 * w) | (X > lim[:, 1] + 1e-9 * w) | ~np.isfinite(X), axis=1)])
    F = X
    if spec["mixed"]:
        for i, row in enumerate(X):
            why = feasible(spec["xt"], spec["xl"], row, False)
            if why:
                return "infeasible", "recorded point %d: %s" % (i, why)
        F = fold(spec["xt"], X)
    if spec["doe"] != "n" and not np.array_equal(F[:nd], doe(spec)):
        return "starting-points", "%s recorded, %s given" % (U.short(F[:nd]), U.short(doe(spec)))
    skip = nd if spec["doe"] == "xy" else 0
    if spec["doe"] == "xy" and not np.array_equal(Y[:nd], Objective(spec).value(doe(spec))):
        return "starting-values", "%s recorded" % U.short(Y[:nd])
    ev = log
    if len(ev) != len(F) - skip:
        return "evaluations", "%d points recorded, %d evaluated" % (len(F) - skip, len(ev))
    for i, (a, v) in enumerate(ev):
        if spec["mixed"]:
            why = feasible(spec["xt"], spec["xl"], a, True) if len(a) == len(spec["xt"]) else "a point of %d coordinates" % len(a)
            if why:
                return "infeasible", "evaluation %d: %s" % (i, why)
        if not np.array_equal(a, F[skip + i]):
            return "evaluations", "evaluation %d at %s, recorded %s" % (i, list(a), list(F[skip + i]))
        if v != Y[skip + i, 0]:
            return "falsified-value", "point %d has the value %.17g, recorded %.17g" % (skip + i, v, Y[skip + i, 0])
    ind = int(ind)
    if Y[ind, 0] != np.min(Y) or float(np.ravel(y_opt)[0]) != np.min(Y):
        return "optimum", "reported %r at index %d, best recorded value %.17g" % (y_opt, ind, np.min(Y))
    if not np.array_equal(np.ravel(x_opt), F[ind]):
        return "optimum", "reported point %r, entry %d is %r" % (x_opt, ind, F[ind])
    return None


def run(ego, fun, npseed, ev=None):
    if ev is not None:
        ev.log = fun.log
    np.random.seed(npseed)
    try:
        return U.Out(True, ego.optimize(fun))
    except Exception as e:
        return U.Out(False, err=type(e).__name__, msg=str(e))


def same(a, b, tol=1e-9):
    if a.ok != b.ok:
        return False
    if not a.ok:
        return a.err == b.err
    return all(U.close(np.asarray(p, float), np.asarray(q, float), tol, tol) and np.shape(p) == np.shape(q) for p, q in zip(a.v, b.v))


class Always(dict):
    """A plan that asks `act` at every call."""

    def __init__(self, act):
        self.act = act

    def get(self, n, default=None):
        return self.act


def exc(name):
    if name == "val":
        return ValueError("injected")
    return {"kbd": KeyboardInterrupt, "mem": MemoryError, "lin": np.linalg.LinAlgError, "fpe": FloatingPointError, "ose": OSError}[name]("injected")


class World:
    """Counts the inner searches of a run and fails what the plan says."""

    def __init__(self, op=None):
        self.op, self.searches, self.fired, self.raised = op, 0, 0, None
        self.factors = self.natural = 0

    def due(self, n):
        return self.op["at"] <= n < self.op["at"] + self.op["len"]

    def minimize(self, fn, a, k):
        if k.get("method") != "SLSQP":
            return fn(*a, **k)
        n = self.searches
        self.searches += 1
        op = self.op
        if op and op["kind"] in ("search", "search-raise") and self.due(n):
            self.fired += 1
            if op["kind"] == "search":
                res = fn(*a, **k)
                res["success"] = False
                res["status"], res["message"] = 9, "Iteration limit reached"
                return res
            self.raised = exc(op["exc"] if op["exc"] not in ("kbd", "mem") else "val")
            raise self.raised
        try:
            res = fn(*a, **k)
        except Exception:
            self.natural += 1
            raise
        if not res["success"]:
            self.natural += 1
        return res

    def full(self):
        """Nothing kept the run from using its whole budget."""
        return self.searches > 0 and not self.natural and not self.fired

    def factor(self, fn, a, k):
        n = self.factors
        self.factors += 1
        if self.op and self.op["kind"] == "factor" and self.due(n):
            self.fired += 1
            raise np.linalg.LinAlgError("injected")
        return fn(*a, **k)

    def patched(self):
        import scipy.optimize, scipy.linalg
        t = [(scipy.optimize, "minimize", "m"), (scipy.linalg, "cholesky", "f"), (scipy.linalg, "qr", "f")]
        return inject.NthCall(t, {"m": Always(self.minimize), "f": Always(self.factor)})
