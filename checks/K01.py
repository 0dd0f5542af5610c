"""Kriging survives transient numerical failures of its inner steps."""
import numpy as np
from sim import universe as U, inject
from sim.session import Session
from sim.core import bad
from checks.H06 import laws

TECH = "seeded transient and lasting failures of factorizations, triangular solves and optimizer runs inside Kriging trainings; bounded attempts, error or valid model, unaffected later training"
LEVEL = "exploration"
N = {"quick": 540, "thorough": 20000}
RULE = ("a case trains a Kriging model 1-3 times under plans that fail chosen calls of inner routines, then once undisturbed; each training must end within a bounded "
        "number of optimizer runs and either raise or return a model that obeys the laws of H06 with hyperparameters in their bounds; "
        "the undisturbed training must equal that of a fresh instance; non-trivial when an injected failure happened")
REAL = ["KRG, KPLS, KPLSK, GEKPLS, MGP, MFK, MFKPLS, MFKPLSK; scipy's optimizers and factorizations outside the failing calls"]
STUB = ["chosen calls of scipy.linalg, numpy.linalg and scipy.optimize routines made by SMT (fail by plan)", "process-wide numpy random state (reseeded)"]
STATES = "hash of (model, failing routine and way, position, outcome)"
ASSUME = ["COBYLA may leave the bounds by at most its initial trust region, half a decade of theta", "optimizer runs are counted at scipy.optimize"]
LIMIT = 60          # optimizer runs per level and stage; measured maximum on the current tree: 26
WAYS = {"cholesky": ["lin", "val"], "qr": ["lin", "val"], "svd": ["lin"], "solve_triangular": ["lin", "val"], "minimize": ["val", "lin", "inf", "start", "nofun"]}


def gen_plan(r):
    fn = r.choice(["cholesky", "cholesky", "cholesky", "qr", "svd", "solve_triangular", "minimize", "minimize"])
    p = {"fn": fn, "way": r.choice(WAYS[fn]), "at": r.choice([0, 0, 1, 2, 3, 5, 8, 13, 21, 40, 80]), "len": r.choice([1, 1, 1, 2, 3, 6, 30, 10 ** 6]),
         "every": r.choice([1, 1, 1, 2, 3, 7])}
    if fn == "minimize":
        p["at"] = r.choice([0, 0, 0, 1, 1, 2, 3])
    return p


def gen(r, i, tier):
    spec = U.gen_spec(r, U.KRIGING)
    if r.random() < .15:
        spec["opts"]["nugget"] = 0.0
    ops = []
    for _ in range(r.choice([1, 1, 2, 3])):
        ops.append({"op": "fail", "plans": [gen_plan(r) for _ in range(r.choice([1, 1, 1, 2]))], "np": r.randint(0, 99), "newdata": r.random() < .2})
    return {"spec": spec, "data": r.randint(0, 30), "ops": ops, "np": r.randint(0, 99)}


class Plans:
    """Fails calls by plan and bounds the optimizer runs."""

    def __init__(self, plans, limit):
        import scipy.linalg, scipy.optimize
        self.n, self.fired, self.runs, self.limit = {}, {}, 0, limit
        self.plans = plans
        T = {"cholesky": [(scipy.linalg, "cholesky")], "qr": [(scipy.linalg, "qr")], "svd": [(scipy.linalg, "svd"), (np.linalg, "svd")],
             "solve_triangular": [(scipy.linalg, "solve_triangular")], "minimize": [(scipy.optimize, "minimize"), (scipy.optimize, "fmin_cobyla")]}
        targets, plan = [], {}
        for fn, where in T.items():
            for mod, attr in where:
                targets.append((mod, attr, fn))
            plan[fn] = _All(self, fn)
        self.nth = inject.NthCall(targets, plan)

    def call(self, name, fn, a, k):
        n = self.n.get(name, 0)
        self.n[name] = n + 1
        if name == "minimize":
            self.runs += 1
            if self.runs > self.limit:
                raise inject.StepLimit("%d optimizer runs" % self.runs)
        for p in self.plans:
            if p["fn"] == name and p["at"] <= n < p["at"] + p["len"] and (n - p["at"]) % p["every"] == 0:
                self.fired[name, p["way"]] = self.fired.get((name, p["way"]), 0) + 1
                return self.fail(p["way"], fn, a, k)
        return fn(*a, **k)

    def fail(self, way, fn, a, k):
        if way == "lin":
            raise np.linalg.LinAlgError("injected")
        if way == "val":
            raise ValueError("injected: array must not contain infs or NaNs")
        import scipy.optimize
        x0 = np.array(a[1] if len(a) > 1 else k["x0"], float)
        f = a[0]
        if way == "start":        # gave up at the starting point
            return scipy.optimize.OptimizeResult(x=x0, fun=float(np.ravel(f(x0))[0]), success=False, status=4, message="injected", nfev=1)
        if way == "inf":          # nothing but infinite values seen
            return scipy.optimize.OptimizeResult(x=x0, fun=np.inf, success=False, status=4, message="injected", nfev=1)
        return scipy.optimize.OptimizeResult(x=x0, fun=np.nan, success=False, status=4, message="injected", nfev=0)

    def __enter__(self):
        self.nth.__enter__()
        return self

    def __exit__(self, *a):
        self.nth.__exit__(*a)


class _All(dict):
    def __init__(self, plans, name):
        self.plans, self.name = plans, name

    def get(self, n, default=None):
        return lambda fn, a, k: self.plans.call(self.name, fn, a, k)


def out_of_bounds(sm, spec, opts):
    """Why a hyperparameter is out of its bounds, or None."""
    th = sm.optimal_theta
    th = th if isinstance(th, list) else [th]
    b = [float(v) for v in sm.options["theta_bounds"]]
    for l, t in enumerate(th):
        t = np.ravel(np.asarray(t, float))
        if not np.all(np.isfinite(t)):
            return "theta of level %d is %s" % (l, t)
        if spec["model"] == "MGP":
            if np.max(np.abs(t)) > b[1] * (1 + 1e-6) + (.5 if opts.get("hyper_opt", "TNC") == "Cobyla" else 0):
                return "theta %s, bounds +-%g" % (t, b[1])
            continue
        tnc = opts.get("hyper_opt") == "TNC"
        slack = 1e-9 if tnc else .51
        g = np.log10(np.maximum(t, 1e-300))
        if np.any(g < np.log10(b[0]) - slack) or np.any(g > np.log10(b[1]) + slack):
            return "theta %s, bounds %s" % (t, b)
    return None


def run(case, rec):
    spec = case["spec"]
    m = spec["model"]
    s = Session(spec)
    s.set(case["data"])
    stages = (2 if "KPLSK" in m else 1) * spec.get("levels", 1)
    for n, op in enumerate(case["ops"]):
        if op["newdata"]:
            s.set(case["data"] + n + 1)
        with Plans(op["plans"], LIMIT * stages) as P:
            try:
                np.random.seed(op["np"])
                s.sm.train()
                out = U.Out(True)
            except inject.StepLimit as e:
                return bad("unbounded", "%s: %s under %s" % (m, e, op["plans"]), model=m)
            except Exception as e:
                out = U.Out(False, err=type(e).__name__, msg=str(e))
        s.trained = out.ok
        for (fn, way), c in P.fired.items():
            rec.fault("%s fails (%s)" % (fn, way), c)
        rec.probe("optimizer runs", P.runs)
        rec.log("train", out.ok, out.err, P.runs, sorted(P.fired.items()))
        rec.op("disturbed training")
        rec.state(m, sorted(spec["opts"]), [(p["fn"], p["way"], p["at"], p["len"]) for p in op["plans"]], out.ok)
        how = "training %d of %s %s under %s" % (n, m, {k: v for k, v in s.opts.items() if k != "xlimits"}, op["plans"])
        if out.ok:
            why = laws(s, rec)
            if why:
                return bad(why[0], "%s: %s" % (how, why[1]), model=m)
            why = out_of_bounds(s.sm, spec, s.opts)
            if why:
                return bad("out-of-bounds", "%s: %s" % (how, why), model=m)
            rec.probe("survived", 1 if P.fired else 0)
    want, ref = s.reference(case["np"])
    got = s.train(case["np"])
    rec.log("undisturbed", got.ok, got.err)
    if got.ok != want.ok or got.err != want.err:
        return bad("later-training", "%s %s after %s: %r, a fresh instance: %r" % (m, s.opts, case["ops"], got, want), model=m)
    if got.ok:
        d = U.compare(s.sm, ref, spec)
        if d:
            return bad("later-training", "%s %s after %s: request %s: %r, a fresh instance: %r" % ((m, s.opts, case["ops"]) + d), model=m)
        rec.log(*[o.v for o in ref.ans.values() if o.ok])
    return None
