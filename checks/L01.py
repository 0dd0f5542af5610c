"""Line searches end within bounded work whatever the objective does."""
import math
import numpy as np
from sim import universe as U, inject
from sim.session import Session
from sim.core import bad

TECH = "seeded hostile objectives (flat, non-finite, noisy, lying slopes, raising at chosen evaluations) against every line search alone and inside spline trainings; bounded work and the step law checked on the recorded evaluations"
LEVEL = "exploration"
N = {"quick": 2250, "thorough": 120000}
RULE = ("a case is a run of 1-4 successive line searches on a simulated objective, or the training of a regularized spline whose objective or gradient misbehaves at chosen evaluations "
        "(then an undisturbed training compared with a fresh instance's); non-trivial when an injected misbehaviour was served or a step was taken")
REAL = ["smt/utils/line_search.py", "smt/surrogate_models/rmts.py, rmtb.py, rmtc.py with their linear solvers"]
STUB = ["the objective and gradient: simulated functions, or the real ones with planned evaluations replaced"]
STATES = "hash of (line search, objective, misbehaviours, evaluations used, step)"
ASSUME = ["'bounded work' is at most %d evaluations of the objective per line search (measured maximum on the current tree: about 300)" % 1000]
LIMIT = 1000
KINDS = ["backtracking", "bracketed", "quadratic", "cubic", "null"]
HOW = ["nan", "inf", "-inf", "big", "noise", "flat", "raise", "sign", "zero", "scale", "zerodiv", "vec-nan"]


class Oops(Exception):
    pass


def gen_faults(r, honest=.25):
    if r.random() < honest:
        return []
    return [{"on": r.choice(["func", "func", "func", "grad"]), "how": r.choice(HOW), "at": r.choice([0, 0, 1, 1, 2, 3, 4, 6, 9, 15, 30]),
             "len": r.choice([1, 1, 2, 5, 20, 10 ** 6, 10 ** 6]), "every": r.choice([1, 1, 1, 2, 3]), "v": r.choice([1e-12, 1e-3, .5, -1., 7., 1e8, 1e200]), "k": r.randint(0, 99)}
            for _ in range(r.choice([1, 1, 2, 3]))]


def gen(r, i, tier):
    if r.random() < .12:
        spec = U.gen_spec(r, ["RMTB", "RMTC"])
        spec["opts"]["line_search"] = r.choice(KINDS)
        spec["opts"]["nonlinear_maxiter"] = r.choice([1, 2, 4, 8])
        spec["opts"]["approx_order"] = r.choice([2, 2, 4])
        return {"kind": "train", "spec": spec, "data": r.randint(0, 30), "faults": gen_faults(r, 0), "np": r.randint(0, 99)}
    d = r.choice([1, 1, 2, 3, 5])
    return {"kind": "alone", "ls": r.choice(KINDS), "obj": r.choice(["quad", "quad", "quart", "rosen", "abs", "exp", "sin", "lin", "const", "step", "log"]),
            "d": d, "oseed": r.randint(0, 10 ** 6), "scale": r.choice([1e-6, 1e-2, 1., 1., 1., 1e3, 1e8]), "dir": r.choice(["newton", "steep", "steep", "random", "ascent", "zero", "huge", "tiny", "nan"]),
            "u1": r.choice([1e-4, 1e-4, .3]), "u2": r.choice([.9, .9, .1]), "a0": r.choice([1, 1., 1., .1, 10., 1e-3]), "ops": [{"faults": gen_faults(r)} for _ in range(r.choice([1, 1, 2, 4]))]}


class Objective:
    """A simulated objective which serves misbehaviour by plan and records what it served."""

    def __init__(self, case):
        rs = np.random.RandomState(case["oseed"])
        d, s = case["d"], case["scale"]
        A = rs.normal(size=(d, d))
        self.A = (A @ A.T + .1 * np.eye(d)) * s
        self.c = rs.normal(size=d)
        self.kind, self.s, self.d = case["obj"], s, d

    def f(self, x):
        z = x - self.c
        with np.errstate(all="ignore"):
            return float({"quad": lambda: .5 * z @ self.A @ z, "quart": lambda: self.s * np.sum(z ** 4 + z ** 2),
                          "rosen": lambda: self.s * (np.sum((1 - x) ** 2) + 100 * np.sum((x[1:] - x[:-1] ** 2) ** 2)),
                          "abs": lambda: self.s * np.sum(np.abs(z)), "exp": lambda: self.s * np.sum(np.exp(z) - z), "sin": lambda: self.s * np.sum(np.sin(5 * z)),
                          "lin": lambda: self.s * np.sum(z), "const": lambda: self.s, "step": lambda: self.s * np.sum(np.floor(z)), "log": lambda: self.s * np.sum(np.log(z))}[self.kind]())

    def g(self, x):
        z = x - self.c
        with np.errstate(all="ignore"):
            k = self.kind
            if k == "quad":
                return self.A @ z
            if k == "quart":
                return self.s * (4 * z ** 3 + 2 * z)
            if k == "rosen":
                g = -2 * (1 - x)
                t = x[1:] - x[:-1] ** 2
                g[1:] += 200 * t
                g[:-1] += -400 * t * x[:-1]
                return self.s * g
            return self.s * {"abs": lambda: np.sign(z), "exp": lambda: np.exp(z) - 1, "sin": lambda: 5 * np.cos(5 * z), "lin": lambda: np.ones_like(z),
                             "const": lambda: np.zeros_like(z), "step": lambda: np.zeros_like(z), "log": lambda: 1 / z}[k]()


class Served:
    """Counts the evaluations and applies the planned misbehaviour."""

    def __init__(self, f, g, faults, limit, keep=True):
        self._f, self._g, self.faults, self.limit, self.keep = f, g, faults, limit, keep
        self.n = {"func": 0, "grad": 0}
        self.fired, self.raised, self.vals, self.grads = {}, None, [], []

    def _serve(self, on, real, *a):
        n = self.n[on]
        self.n[on] = n + 1
        if n + 1 > self.limit:
            raise inject.StepLimit("%d evaluations of %s" % (n + 1, on))
        v = real(*a)
        for p in self.faults:
            if p["on"] == on and p["at"] <= n < p["at"] + p["len"] and (n - p["at"]) % p["every"] == 0:
                key = "%s: %s" % (on, p["how"])
                self.fired[key] = self.fired.get(key, 0) + 1
                h = p["how"]
                if h == "raise":
                    self.raised = Oops(n)
                    raise self.raised
                if h == "zerodiv":
                    self.raised = ZeroDivisionError("injected %d" % n)
                    raise self.raised
                u = np.random.RandomState(p["k"] + n).uniform(-1, 1)
                one = np.ones_like(v)
                if h == "vec-nan":
                    v = np.array(v, float) * 1.
                    if v.ndim:
                        v[0] = np.nan
                    else:
                        v = np.nan
                else:
                    v = {"nan": one * np.nan, "inf": one * np.inf, "-inf": -one * np.inf, "big": one * 1e300, "noise": v + p["v"] * u, "flat": one * p["v"],
                         "sign": -v, "zero": 0 * one, "scale": v * p["v"]}[h]
        return v

    def func(self, x, *a):
        v = self._serve("func", self._f, x, *a)
        if self.keep:
            self.vals.append((np.array(x), v))
        return v

    def grad(self, x, *a):
        v = self._serve("grad", self._g, x, *a)
        if self.keep:
            self.grads.append((np.array(x), v))
        return v


def alone(case, rec):
    from smt.utils.line_search import get_line_search_class
    cls = get_line_search_class(case["ls"])
    O = Objective(case)
    rs = np.random.RandomState(case["oseed"] + 1)
    x = rs.normal(size=case["d"]) * 2 + (np.abs(O.c) + 1 if case["obj"] == "log" else 0)
    for n, op in enumerate(case["ops"]):
        S = Served(O.f, O.g, op["faults"], LIMIT)
        g = O.g(x)
        D = case["dir"]
        with np.errstate(all="ignore"):
            dx = {"newton": lambda: -np.linalg.solve(O.A, g) if O.kind == "quad" else -g / O.s, "steep": lambda: -g, "random": lambda: rs.normal(size=case["d"]),
                  "ascent": lambda: 1. * g, "zero": lambda: 0 * g, "huge": lambda: -g * 1e12, "tiny": lambda: -g * 1e-12, "nan": lambda: g * np.nan}[D]()
        x0, d0 = x.copy(), dx.copy()
        what = "%s line search %d on %s (%s direction, faults %s)" % (case["ls"], n, case["obj"], D, op["faults"])
        err = None
        with np.errstate(all="ignore"):
            try:
                out = cls(x, dx, S.func, S.grad, u1=case["u1"], u2=case["u2"])(case["a0"])
            except inject.StepLimit as e:
                return bad("unbounded", "%s: %s" % (what, e), ls=case["ls"])
            except Exception as e:
                err = e
        for k, c in S.fired.items():
            rec.fault(k, c)
        rec.op("line search")
        rec.probe("evaluations", S.n["func"])
        rec.state(case["ls"], case["obj"], D, sorted(S.fired), S.n["func"], S.n["grad"], type(err).__name__)
        if not np.array_equal(x, x0) or not np.array_equal(dx, d0, equal_nan=True):
            return bad("argument-changed", "%s changed its starting point or direction" % what, ls=case["ls"])
        if S.raised is not None and err is not S.raised:
            return bad("error-lost", "%s: the objective raised %r, the line search ended with %r" % (what, S.raised, err), ls=case["ls"])
        if err is not None:
            if S.raised is None and not S.fired and D != "nan" and O.kind not in ("log",):
                return bad("spurious-error", "%s raised %r though the objective answered faithfully" % (what, err), ls=case["ls"])
            rec.log("raised", type(err).__name__)
            continue
        out = np.asarray(out, float)
        rec.log(out, S.n["func"])
        if out is x:
            return bad("aliased", "%s returned the caller's own array" % what, ls=case["ls"])
        if D == "nan" or (case["ls"] == "null" and not np.all(np.isfinite(x + case["a0"] * dx))):
            break
        if out.shape != x.shape or not np.all(np.isfinite(out)):
            return bad("bad-step", "%s returned %s" % (what, out), ls=case["ls"])
        if case["ls"] == "null":
            if not np.array_equal(out, x + case["a0"] * dx):
                return bad("bad-step", "%s returned %s, not the full step" % (what, out), ls="null")
            x = out
            continue
        if np.array_equal(out, x):
            a, how = 0., "stays"
        else:
            # the step must be forward, and one whose evaluation showed the sufficient decrease
            k = int(np.argmax(np.abs(dx) * (out != x)))
            a, how = float((out - x)[k] / dx[k]) if dx[k] != 0 else math.nan, "steps"
            if not a > 0:
                return bad("bad-step", "%s stepped by %r times the direction" % (what, a), ls=case["ls"])
            phi0 = S.vals[0][1]
            dphi0 = float(np.dot(S.grads[0][1], dx))
            seen = [v for p, v in S.vals[1:] if np.array_equal(p, out)]
            tol = 1e-9 * (abs(phi0) + abs(case["u1"] * a * dphi0)) + case["u1"] * abs(dphi0) * 1e-15 * (1 + abs(x[k])) / abs(dx[k])
            top = phi0 + case["u1"] * a * dphi0
            if not any(v <= top or v <= top + tol for v in seen):
                return bad("no-decrease", "%s took step %g, where the objective showed %s; from %s with slope %s that is not the promised decrease"
                           % (what, a, seen, phi0, dphi0), ls=case["ls"])
        rec.log(how, a)
        rec.probe(how)
        rec.nontrivial = True
        if not S.fired and O.kind in ("quad", "quart") and D in ("newton", "steep") and 1e-3 <= O.s <= 1e3 and 1e-4 < np.linalg.norm(g) / O.s \
                and abs(O.g(x + case["a0"] * dx) @ dx) < 1e4 * abs(g @ dx):
            # a faithful, strongly convex objective and a descent direction: progress; on a Newton step also the curvature condition
            if not a > 0:
                return bad("no-progress", "%s stays put on a faithful convex objective with gradient %s" % (what, g), ls=case["ls"])
            if case["ls"] != "backtracking" and O.kind == "quad" and D == "newton" and case["a0"] >= .1 and case["u1"] < .1 and abs(O.g(out) @ dx) > case["u2"] * abs(g @ dx) * (1 + 1e-6) + 1e-12 * O.s:
                return bad("curvature", "%s returned step %g with slope %g, initially %g" % (what, a, O.g(out) @ dx, g @ dx), ls=case["ls"])
            rec.probe("faithful convex")
        x = out
        if not np.all(np.isfinite(O.g(x))):
            break
    return None


def trained(case, rec):
    spec = case["spec"]
    s = Session(spec)
    s.set(case["data"])
    sm = s.sm
    S = Served(sm._opt_func, sm._opt_grad, case["faults"], 10 ** 9, keep=False)
    ls = spec["opts"]["line_search"]
    iters = (1 + spec["opts"]["nonlinear_maxiter"]) * s.ny if hasattr(s, "ny") else (1 + spec["opts"]["nonlinear_maxiter"]) * 4
    S.limit = LIMIT * iters
    sm._opt_func, sm._opt_grad = S.func, S.grad
    err = None
    try:
        np.random.seed(case["np"])
        with np.errstate(all="ignore"):
            sm.train()
    except inject.StepLimit as e:
        return bad("unbounded", "%s %s: %s under %s" % (spec["model"], ls, e, case["faults"]), ls=ls)
    except Exception as e:
        err = e
    for k, c in S.fired.items():
        rec.fault("training " + k, c)
    rec.op("disturbed training")
    rec.log("train", type(err).__name__, S.n["func"], S.n["grad"])
    rec.state("train", spec["model"], ls, sorted(S.fired), type(err).__name__)
    s.trained = err is None
    if S.fired:
        rec.nontrivial = True
    if S.raised is not None and err is not S.raised:
        return bad("error-lost", "%s %s: the objective raised %r, training ended with %r" % (spec["model"], ls, S.raised, err), ls=ls)
    del sm._opt_func, sm._opt_grad
    want, ref = s.reference(case["np"])
    got = s.train(case["np"])
    if got.ok != want.ok or got.err != want.err:
        return bad("later-training", "%s %s after %s: %r, a fresh instance: %r" % (spec["model"], s.opts, case["faults"], got, want), ls=ls)
    if got.ok:
        d = U.compare(s.sm, ref, spec)
        if d:
            return bad("later-training", "%s %s after %s: request %s: %r, a fresh instance: %r" % ((spec["model"], s.opts, case["faults"]) + d), ls=ls)
        rec.log(*[o.v for o in ref.ans.values() if o.ok])
    return None


def run(case, rec):
    return (alone if case["kind"] == "alone" else trained)(case, rec)


def shrink(case):
    import copy
    if case["kind"] == "train":
        for i in range(len(case["faults"])):
            c = copy.deepcopy(case)
            del c["faults"][i]
            yield c
        return
    for i in range(len(case["ops"])):
        if len(case["ops"]) > 1:
            c = copy.deepcopy(case)
            del c["ops"][i]
            yield c
        for j in range(len(case["ops"][i]["faults"])):
            c = copy.deepcopy(case)
            del c["ops"][i]["faults"][j]
            yield c
