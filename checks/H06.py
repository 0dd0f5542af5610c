"""Every model that training returns is a valid model of its data, after any history and any faults."""
import numpy as np
from sim import universe as U, inject, kriging, spline
from sim.session import Session
from sim.core import bad
from checks.H01 import gen_ops
from checks.H02 import EXC, cut, gen_fault

TECH = "seeded histories with interrupts and transient numerical failures; each returned model is judged by model-independent laws"
LEVEL = "exploration"
N = {"quick": 580, "thorough": 20000}
RULE = ("a case is a random history (set, update, options, train, predict) of a surrogate with interruptions and failing linear algebra "
        "calls in some trainings; after each training that returns, interpolation, normal equations, agreement with an independent "
        "extended-precision reference (Kriging and co-Kriging values and variances at the hyperparameters found, RBF, IDW, LS, QP), derivatives against differences of "
        "values, variances and output derivatives are checked; non-trivial when the checked training was not the first event of the instance")
REAL = ["all of smt.surrogate_models, smt.applications.MFK/MFKPLS/MFKPLSK, compiled extensions"]
STUB = ["process-wide numpy random state (reseeded)", "chosen calls of scipy.linalg/numpy.linalg routines made by SMT (fail by plan)"]
STATES = "hash of (model, option names, history)"
ASSUME = ["differences are compared only where two step sizes agree", "interpolation tolerances allow for the conditioning the configured nugget permits"]


def gen(r, i, tier):
    spec = U.gen_spec(r)
    ops = gen_ops(r, spec, r.randint(0, 4))
    for _ in range(r.choice([0, 1, 1, 2])):
        f = gen_fault(r)
        if r.random() < .4:
            f = {"op": "ltrain", "fn": r.choice(["cholesky", "qr", "svd", "solve_triangular", "minimize"]), "at": r.choice([0, 0, 1, 2, 5, 9]),
                 "len": r.choice([1, 1, 3]), "np": r.randint(0, 99)}
        ops.insert(r.randint(1, len(ops)), f)
    return {"spec": spec, "ops": ops}


def shrink(case):
    from sim.core import default_shrink
    for c in default_shrink(case):
        if c["ops"]:
            yield c


def noisy(o, spec):
    return bool(o.get("eval_noise") or o.get("noise0") or o.get("use_het_noise") or spec.get("dup"))


def refusable(d, o):
    """Derivatives are documented for the squared exponential kernel and constant or linear trends only."""
    return d.err == "ValueError" and (o.get("poly", "constant") == "quadratic" or o.get("corr", "squar_exp") != "squar_exp"
                                      or o.get("rho_regr", "constant") != "constant")


def laws(s, rec):
    """First law a trained session's model breaks: (name, detail) or None."""
    spec, sm, o = s.spec, s.sm, s.opts
    m = spec["model"]
    nx = spec["nx"]
    lim = np.array(spec["lim"], float)
    w = lim[:, 1] - lim[:, 0]
    data = s.arrays()
    top = [e for e in data if e[0] == "v" and e[1] is None]
    xt, yt = top[0][3], top[0][4]
    rng = np.max(np.ptp(yt, axis=0)) + 1e-12 * np.max(np.abs(yt)) + 1e-300
    p = U.outcome(sm.predict_values, xt.copy())
    if not p.ok:
        return "no-answer", "values at the training points: %r" % p
    if m in ("RMTB", "RMTC") and (o.get("line_search") == "null" or o.get("regularization_weight", 1e-14) < 1e-12) and not np.all(np.isfinite(p.v)):
        rec.probe("diverging spline")
        return None
    if not np.all(np.isfinite(p.v)):
        return "not-finite", "values at the training points: %s" % U.short(p.v)
    res = np.max(np.abs(p.v.reshape(yt.shape) - yt)) / rng
    tol = None
    if m == "IDW":
        tol = 1e-6
    elif m == "RBF":
        tol = 0.05 if o.get("reg", 1e-10) <= 1e-8 and np.min(U.decode(o.get("d0", 1.0))) <= 5 else None
    elif m in ("KRG", "KPLS", "KPLSK") and not noisy(o, spec):
        tol = 0.1 if o.get("poly", "constant") == "constant" and o.get("nugget", 0) < 1e-9 else 0.4
    elif m in ("MFK", "MFKPLS", "MFKPLSK") and not noisy(o, spec):
        tol = 0.4
    elif m == "GEKPLS":
        tol = None if o.get("extra_points") else 0.1
    if tol is not None:
        rec.probe("interpolation")
        if res > tol:
            return "interpolation", "largest residual at the training points is %.3g of the range" % res
    if m in ("LS", "QP"):
        F = np.hstack([np.ones((len(xt), 1)), xt]) if m == "LS" else quad(xt)
        F = F / np.max(np.abs(F), axis=0)
        if np.linalg.cond(F) < 1e5:
            g = np.max(np.abs(F.T @ (p.v.reshape(yt.shape) - yt))) / (np.max(np.abs(yt)) * len(xt))
            rec.probe("normal equations")
            if g > 1e-6:
                return "normal-equations", "gradient of the squared residual is %.3g" % g
    # away from the training points
    x = U.queries(spec, "h6", 3)
    v = U.outcome(sm.predict_values, x.copy())
    if not v.ok or not np.all(np.isfinite(v.v)):
        return "not-finite", "values: %r" % v
    why = kriging.differs(spec, sm, o, data, x, rec) or kriging.simple_differs(spec, sm, o, xt, yt, x, rec)
    if not why and m in ("RMTB", "RMTC"):
        why = spline.differs(spec, sm, o, data, rec)
    if why:
        return "definition", why
    for k in range(nx):
        if "d" not in U.CAPS[m]:
            break
        d = U.outcome(sm.predict_derivatives, x.copy(), k)
        if not d.ok:
            if refusable(d, o):
                break
            return "no-answer", "derivative %d: %r" % (k, d)
        if not np.all(np.isfinite(d.v)):
            return "not-finite", "derivative %d: %s" % (k, U.short(d.v))
        why = against_differences(lambda z: sm.predict_values(z), x, k, w[k], d.v, rng, np.max(np.abs(yt)), rec)
        if why:
            return "derivative", "with respect to variable %d: %s" % (k, why)
    if "s" in U.CAPS[m]:
        sv = U.outcome(sm.predict_variances, x.copy())
        st = U.outcome(sm.predict_variances, xt.copy())
        for a, where in ((sv, "elsewhere"), (st, "at the training points")):
            if not a.ok:
                return "no-answer", "variances %s: %r" % (where, a)
            if not np.all(np.isfinite(a.v)):
                return "not-finite", "variances %s: %s" % (where, U.short(a.v))
            if np.min(a.v) < 0:
                return "negative-variance", "variances %s: %s" % (where, U.short(a.v))
        far = lim[:, 1] + 2 * w
        prior = U.outcome(sm.predict_variances, far.reshape(1, -1))
        if not noisy(o, spec) and m not in ("MGP", "GEKPLS", "MFK", "MFKPLS", "MFKPLSK") and prior.ok and np.all(np.isfinite(prior.v)):
            scale = max(float(np.max(prior.v)), float(np.var(yt)))
            rec.probe("variance at training points")
            if np.max(st.v) > 1e-3 * scale:
                return "variance-at-data", "variance at a training point is %.3g, far away %.3g" % (np.max(st.v), scale)
    if "e" in U.CAPS[m]:
        x1 = x[:1]
        e = U.outcome(sm.predict_variance_derivatives, x1.copy())
        if e.ok:
            if not np.all(np.isfinite(e.v)):
                return "not-finite", "variance derivatives %s" % U.short(e.v)
            sc = max(float(np.max(prior.v)) if prior.ok else 0, float(np.var(yt)))
            for k in range(nx):
                why = against_differences(lambda z: sm.predict_variances(z), x1, k, w[k], np.ravel(e.v)[k].reshape(1, 1), sc, sc, rec)
                if why:
                    return "variance-derivative", "with respect to variable %d: %s" % (k, why)
        elif not refusable(e, o):
            return "no-answer", "variance derivatives: %r" % e
    if m in ("RBF", "IDW"):
        j = U.outcome(sm.predict_output_derivatives, x.copy())
        if not j.ok:
            return "no-answer", "output derivatives: %r" % j
        J = np.asarray(j.v[None]).reshape(len(x), len(xt), -1)[:, :, :1]
        lin = np.einsum("ijk,jl->il", J, yt)
        rec.probe("output derivatives")
        if res < 1e-6 and o.get("reg", 1e-10) >= 1e-10 and not U.close(lin, v.v.reshape(lin.shape), 1e-3, 1e-3 * rng):
            return "output-derivative", "a linear model's values %s are not its output derivatives times the training outputs %s" % (U.short(v.v), U.short(lin))
    return None


def quad(x):
    n = x.shape[1]
    cols = [np.ones(len(x))] + [x[:, i] for i in range(n)] + [x[:, i] * x[:, j] for i in range(n) for j in range(i, n)]
    return np.array(cols).T


def against_differences(f, x, k, w, d, rng, mag, rec):
    def fd(h):
        a, b = x.copy(), x.copy()
        a[:, k] += h
        b[:, k] -= h
        return (np.asarray(f(a), float).reshape(len(x), -1) - np.asarray(f(b), float).reshape(len(x), -1)) / (2 * h)
    d = np.asarray(d, float).reshape(len(x), -1)
    f1, f2 = fd(2e-4 * w), fd(1e-4 * w)
    f3 = fd(3e-3 * w)
    ok = np.isfinite(f1) & np.isfinite(f2)
    size = np.maximum(np.abs(f2), 0.05 * rng / w)
    agree = ok & (np.abs(f3 - f2) <= 0.3 * size)
    for f0 in (f1, fd(1.31e-4 * w), fd(1.73e-4 * w), fd(2.9e-4 * w)):
        agree &= np.abs(f0 - f2) <= 5e-3 * size
    rec.probe("derivative compared", int(agree.sum()))
    rec.probe("derivative not comparable", int((~agree).sum()))
    badd = agree & (np.abs(d - f2) > 0.05 * size)
    if badd.any():
        i = np.argwhere(badd)[0]
        return "%.6g, difference of values %.6g" % (d[tuple(i)], f2[tuple(i)])
    return None


def failing(op):
    """Transient failures of linear algebra (or optimizer) calls made by SMT."""
    import scipy.linalg, scipy.optimize
    t = {"cholesky": [(scipy.linalg, "cholesky", "f")], "qr": [(scipy.linalg, "qr", "f")], "svd": [(scipy.linalg, "svd", "f"), (np.linalg, "svd", "f")],
         "solve_triangular": [(scipy.linalg, "solve_triangular", "f")], "minimize": [(scipy.optimize, "minimize", "f"), (scipy.optimize, "fmin_cobyla", "f")]}[op["fn"]]

    def act(fn, a, k):
        raise np.linalg.LinAlgError("injected")
    return inject.NthCall(t, {"f": {op["at"] + j: act for j in range(op["len"])}})


def unexplained(o, s):
    """What a training of valid data with valid options raised, unless it is a reported numerical failure or a stated refusal."""
    if o.err == "LinAlgError" or "attempts to train the model failed" in o.msg or "Try increasing the ``nugget``" in o.msg or "ill conditioned" in o.msg or "singular" in o.msg:
        return None
    t = s.opts.get("theta0")
    if o.err == "ValueError" and "theta0" in o.msg and t is not None:
        m = s.spec["model"]
        t = np.asarray(U.decode(t), float)
        d = s.spec["nx"] * (s.opts.get("n_comp", 1) if m == "MGP" else 1)
        if m in ("KPLS", "KPLSK", "GEKPLS", "MFKPLS", "MFKPLSK"):
            d = s.opts.get("n_comp", 1)
        levels = len({e[1] for e in s.data if e[0] == "v"})
        ok = {(1,), (d,)}
        if m.startswith("MFK"):
            ok = {(levels, d)} if isinstance(U.decode(s.opts["theta0"]), np.ndarray) else ok | {(levels,)}
        if t.shape not in ok:
            return None
    n0 = s.opts.get("noise0")
    if o.err == "ValueError" and "noise0" in o.msg and n0 is not None:
        nt = [len(e[3]) for e in s.arrays() if e[0] == "v"]
        k = np.asarray(U.decode(n0), float).shape
        if not s.spec["model"].startswith("MFK") and k != (1,) and (not s.opts.get("use_het_noise") or k != (nt[0],)):
            return None
        if s.spec["model"].startswith("MFK"):
            return None
    if s.spec["model"] == "QP" and "Number of training points" in o.msg:
        x = [e[3] for e in s.arrays() if e[0] == "v"][0]
        if len(x) < (x.shape[1] + 1) * (x.shape[1] + 2) // 2:
            return None
    return repr(o)


def run(case, rec):
    spec = case["spec"]
    m = spec["model"]
    s = Session(spec)
    hist = []
    for i, op in enumerate(case["ops"]):
        k = op["op"]
        hist.append(k)
        rec.op(k)
        done = False
        if k == "set":
            s.set(op["data"], op["nt"])
        elif k == "update":
            if s.data:
                s.update(op["y"])
        elif k == "opt":
            s.option(op["k"], op["v"])
        elif k == "ask":
            if s.trained:
                U.outcome(U.ask, s.sm, op["req"], U.queries(spec, op["q"], op["n"]))
        elif not s.data:
            continue
        elif k == "train":
            o = s.train(op["np"])
            done = o.ok
            rec.log("train", o.ok, o.err)
            why = None if o.ok else unexplained(o, s)
            if why:
                return bad("training-fails", "step %d (train) of %s, %s: a training nothing disturbed raised %s" % (
                    i, hist, {a: b for a, b in s.opts.items() if a != "xlimits"}, why), model=m, err=o.err)
        elif k == "ltrain":
            with failing(op) as f:
                o = s.train(op["np"])
            rec.fault("%s fails" % op["fn"], sum(f.fired.values()))
            rec.log("ltrain", o.ok, o.err, sum(f.fired.values()))
            done = o.ok
        elif k == "itrain":
            with inject.Sites() as st:
                U.train(s.fresh(), op["np"])
            site = inject.choose(st.eligible(), op["frac"], op["occ"])
            if site is None:
                continue
            fired, err, _ = cut(site, op, s.sm.train, rec, m)
            s.trained = done = err is None
            rec.log("cut", site, fired, type(err).__name__)
        if done:
            if len(hist) > 2:
                rec.nontrivial = True
            rec.state(m, ",".join(sorted(s.opts)), ",".join(hist))
            why = laws(s, rec)
            if why:
                return bad(why[0], "step %d (%s) of %s, %s: %s" % (i, k, hist, {a: b for a, b in s.opts.items() if a != "xlimits"}, why[1]), model=m)
            q = U.queries(spec, 1, 2)
            o = U.outcome(s.sm.predict_values, q)
            rec.log("v", o.v if o.ok else o.err)
    return None
