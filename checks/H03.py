"""Predicting never changes the model; points are answered independently."""
import numpy as np
from sim import universe as U, comp, inject
from sim.core import bad

TECH = "seeded request histories (interrupted, rejected, regrouped) on one trained model compared with an identically trained one"
LEVEL = "exploration"
N = {"quick": 580, "thorough": 20000}
RULE = ("a case trains a random model twice alike; one instance answers single probes only, the other answers a random history of 3-14 "
        "requests (all kinds, 1-40 points, permuted, duplicated, at training points, outside the bounds, integer or non-contiguous "
        "arrays, rejected ones, interrupted ones) with probes in between; non-trivial when a probe was compared after at least one other request")
REAL = ["all of smt.surrogate_models, smt.applications.MFK/MFKPLS/MFKPLSK/MOE/VFM, compiled extensions"]
STUB = ["process-wide numpy random state (seeded before the trainings)"]
STATES = "hash of (model, request kind, form of the request)"
ASSUME = ["answers may differ with the grouping of points (different BLAS kernels) by 1e-5 of their magnitude for models of known conditioning, by 5% for others"]
FORMS = ["plain", "plain", "single", "perm", "dup", "train", "outside", "strided", "fortran", "int", "flat", "bad-dim", "bad-kx", "bad-type", "interrupt", "interrupt", "far"]


def gen(r, i, tier):
    if r.random() < .2:
        spec = comp.gen_spec(r)
        kinds = comp.requests(spec)
    else:
        spec = U.gen_spec(r)
        kinds = U.requests(spec)
        if r.random() < .6:      # well-conditioned: answers of grouped points can be compared sharply
            if spec["model"] in U.KRIGING:
                spec["opts"]["nugget"] = 1e-8
            elif spec["model"] == "RBF":
                spec["opts"]["reg"] = 1e-4
    ops = []
    for _ in range(r.randint(3, 14)):
        ops.append({"req": r.choice(kinds), "how": r.choice(FORMS), "n": r.choice([1, 2, 3, 7, 40]), "q": r.randint(0, 5),
                    "a": r.random(), "b": r.random(), "exc": r.choice(["kbd", "mem"]),
                    "probe": r.choice(kinds), "pn": r.choice(["whole", "rows", "rev"])})
    return {"spec": spec, "data": r.randint(0, 30), "np": r.randint(0, 9), "ops": ops, "at": r.choice([0, 0, 1, 1, 3])}


def make(case):
    spec = case["spec"]
    if spec["model"] in ("MOE", "VFM"):
        a = comp.build(spec, case["data"])
        return a, comp.train(a, spec, case["np"])
    sm = U.build(spec)
    U.feed(sm, U.training(spec, case["data"]))
    return sm, U.train(sm, case["np"])


def xtrain(case):
    spec = case["spec"]
    if spec["model"] == "MOE":
        return comp.moe_data(spec, case["data"])[0]
    if spec["model"] == "VFM":
        return comp.vfm_data(spec, case["data"])[2]
    return [e for e in U.training(spec, case["data"]) if e[0] == "v" and e[1] is None][0][3]


def points(case, op):
    spec = case["spec"]
    nx = spec["nx"]
    how, n = op["how"], op["n"]
    x = U.queries(spec, "h3/%d" % op["q"], n)
    if how == "single":
        x = x[:1]
    elif how == "perm":
        x = x[::-1].copy()
    elif how == "dup":
        x = np.vstack([x, x, x[:1]])
    elif how == "train":
        x = xtrain(case)[: n + 1].copy()
    elif how == "outside":
        x = U.queries(spec, "h3/%d" % op["q"], n, outside=True)
    elif how == "far":
        x = x * 1e3 + 17
    elif how == "strided":
        b = np.empty((2 * n, nx + 1))
        b[::2, :nx] = x
        x = b[::2, :nx]
    elif how == "fortran":
        x = np.asfortranarray(x)
    elif how == "int":
        x = np.round(x).astype(int)
    elif how == "flat":
        x = x.ravel() if nx == 1 else x[0].copy()
    elif how == "bad-dim":
        x = np.hstack([x, x])[:, : nx + 1] if nx > 0 else x
    elif how == "bad-type":
        x = "text" if op["a"] < .5 else None
    return x


def run(case, rec):
    spec = case["spec"]
    m = spec["model"]
    A, oa = make(case)
    B, ob = make(case)
    if oa.ok != ob.ok or not oa.ok:
        rec.log("untrained", oa.err, ob.err)
        return None
    xp = U.queries(spec, "probe", 4)
    if case.get("at"):      # one of the probe points is a training point
        xp[case["at"] - 1] = xtrain(case)[0]
    need = sorted({(o["probe"], "rows" if o["probe"] == "e" else o["pn"]) for o in case["ops"]})
    kinds = sorted({k for k, _ in need})
    scale = {k: 0.0 for k in kinds}
    ref = {}
    for k, pn in need:
        ref[k, pn] = probe(A, k, xp, pn)
        v = np.concatenate([np.abs(np.asarray(w.v, float)).ravel() for w in ref[k, pn] if w.ok] or [np.zeros(1)])
        v = v[np.isfinite(v)]
        scale[k] = max(scale[k], float(v.max()) if v.size else 0.0)
    widen(A, case, scale)
    # each point on its own, and in a request with others: rounding apart, the same answer
    tol = 1e-5 if regular(spec) else 0.05
    for k, pn in need:
        if pn == "rows" or not regular(spec) and k == "o":
            continue
        rows = probe(A, k, xp, "rows")
        for j, (g, w) in enumerate(zip(ref[k, pn], rows)):
            ok = U.close(np.ravel(g.v), np.ravel(w.v), tol, tol * scale[k]) if g.ok and w.ok else g.ok == w.ok
            if not ok:
                return bad("answer-depends-on-other-points", "request %s (%s), point %d: %r; alone: %r" % (k, pn, j, g, w), model=m, req=k[0])
    for i, op in enumerate(case["ops"]):
        rec.op(op["how"])
        rec.state(m, op["req"], op["how"])
        x = points(case, op)
        req = op["req"]
        if op["how"] == "bad-kx":
            o = U.outcome(lambda: B.predict_derivatives(x, spec["nx"] + 1))
            rec.fault("rejected request") if not o.ok else None
        elif op["how"] == "interrupt":
            with inject.Sites() as st:
                U.outcome(U.ask, A, req, np.array(x))
            site = inject.choose(st.eligible(), op["a"], op["b"])
            # the reference instance was asked once more: that must not matter either
            if site is not None:
                e = {"kbd": KeyboardInterrupt, "mem": MemoryError}[op["exc"]]("injected")
                inj = inject.Interrupt(site[0], site[1], site[2], e)
                err = None
                try:
                    with inj:
                        U.ask(B, req, x)
                except BaseException as ex:
                    err = ex
                if inj.fired:
                    rec.fault("interrupted request")
                    if type(err) is not type(e):
                        return bad("interrupt-swallowed", "%s at %s:%d gave %r" % (op["exc"], site[0], site[1], err), model=m)
            o = None
        else:
            if req == "e" and isinstance(x, np.ndarray) and x.ndim == 2:
                x = x[:1]
            o = U.outcome(U.ask, B, req, x)
            if not o.ok:
                rec.fault("rejected request")
        rec.log(op["how"], req, None if o is None else (o.v if o.ok else o.err))
        k = op["probe"]
        pn = "rows" if k == "e" else op["pn"]
        rec.nontrivial = True
        got = probe(B, k, xp, pn)
        for j, (g, w) in enumerate(zip(got, ref[k, pn])):
            if g.ok and w.ok:
                ok = U.close(np.ravel(g.v), np.ravel(w.v), 1e-10, 1e-10 * scale[k])
            else:
                ok = g.ok == w.ok and g.err == w.err
            if not ok:
                return bad("answer-depends-on-history", "after %d requests (%s), probe %s (%s), point %d: %r; at first: %r" % (
                    i + 1, [o2["how"] + ":" + o2["req"] for o2 in case["ops"][: i + 1]], k, pn, j, g, w), model=m, req=k[0])
            rec.log(k, g.v if g.ok else g.err)
    return None


def widen(sm, case, scale):
    """Scales of answers by request kind, made at least the size of what the model deals in."""
    spec = case["spec"]
    kinds = list(scale)
    lim = np.array(spec["lim"], float)
    far = lim[:, 1] + 2 * (lim[:, 1] - lim[:, 0])
    prior = 0.0                 # size of the variances this model deals in
    if "s" in kinds or "e" in kinds:
        o = U.outcome(U.ask, sm, "s", far.reshape(1, -1))
        if o.ok and np.all(np.isfinite(o.v)):
            prior = float(np.max(np.abs(o.v)))
    for k in kinds:
        if k == "s":
            scale[k] = max(scale[k], prior, float(np.var(ytrain(case))))
        elif k == "e":
            scale[k] = max(scale[k], prior / np.min(lim[:, 1] - lim[:, 0]))
        elif k[0] in "vd":
            y = ytrain(case)
            s = float(np.max(np.abs(y)))
            scale[k] = max(scale[k], s if k == "v" else s / (lim[int(k[1:]), 1] - lim[int(k[1:]), 0]))


def regular(spec):
    """Conditioning known to leave at least five digits to an answer."""
    m = spec["model"]
    if m in U.KRIGING:
        return spec["opts"].get("nugget") == 1e-8
    if m == "RBF":
        return spec["opts"].get("reg", 0) >= 1e-4
    return m not in ("MOE", "VFM")


def probe(sm, k, xp, pn):
    """Outcome per point of the probe points: asked one by one, together, or together in reverse order."""
    n = len(xp)
    if pn == "rows":
        return [U.outcome(U.ask, sm, k, xp[j:j + 1].copy()) for j in range(n)]
    g = U.outcome(U.ask, sm, k, xp.copy() if pn == "whole" else xp[::-1].copy())
    if not g.ok:
        return [g] * n
    v = np.asarray(g.v)
    if v.shape[:1] != (n,):
        return [U.Out(False, err="shape%s" % (v.shape,))] * n
    if pn == "rev":
        v = v[::-1]
    return [U.Out(True, v[j:j + 1]) for j in range(n)]


def ytrain(case):
    spec = case["spec"]
    if spec["model"] == "MOE":
        return comp.moe_data(spec, case["data"])[1]
    if spec["model"] == "VFM":
        return comp.vfm_data(spec, case["data"])[3]
    return np.concatenate([e[4] for e in U.training(spec, case["data"]) if e[0] == "v"])
