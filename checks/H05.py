"""A rejected request leaves the model exactly as it was."""
import numpy as np
from sim import universe as U
from sim.session import Session, eq
from sim.core import bad
from checks.H01 import gen_ops

TECH = "seeded histories with rejected requests inserted at arbitrary positions, compared with the same history without them"
LEVEL = "exploration"
N = {"quick": 680, "thorough": 22000}
RULE = ("a case is a random history of 4-14 valid operations on a surrogate with 1-6 requests inserted that the library has to reject "
        "(wrong types, ranks, counts and dimensions, unknown and invalid options, unsupported operations, updates before set); the same "
        "history without them runs on a second instance and every later outcome, every answer and all options have to agree; "
        "non-trivial when a rejection was followed by a compared outcome")
REAL = ["all of smt.surrogate_models, smt.applications.MFK/MFKPLS/MFKPLSK, smt.utils.options_dictionary, compiled extensions"]
STUB = ["process-wide numpy random state (reseeded)"]
STATES = "hash of (model, rejected request, position relative to training)"
ASSUME = []
BAD = ["set-count", "set-type", "set-rank", "upd-count", "upd-type", "upd-name", "der-unsupported", "der-kx", "der-kxtype", "der-count",
       "opt-unknown", "opt-invalid", "opt-update", "ask-dim", "ask-type", "ask-rank", "ask-unsupported", "ask-kx", "der-upd", "new-bad"]


def gen(r, i, tier):
    spec = U.gen_spec(r)
    ops = gen_ops(r, spec, r.randint(1, 5))
    for _ in range(r.randint(1, 6)):
        ops.insert(r.randint(0, len(ops)), {"op": "bad", "what": r.choice(BAD), "a": r.random(), "n": r.choice([1, 2, 3, 5])})
    return {"spec": spec, "ops": ops}


def shrink(case):
    from sim.core import default_shrink
    for c in default_shrink(case):
        if c["ops"]:
            yield c


INVALID = {"RBF": ("d0", "far"), "IDW": ("p", "two"), "LS": ("data_dir", 3), "QP": ("data_dir", 3), "RMTC": ("approx_order", 1.5),
           "RMTB": ("min_energy", "yes"), "KRG": ("eval_noise", "yes"), "KPLS": ("theta_bounds", "wide"), "KPLSK": ("n_start", "ten"),
           "GEKPLS": ("extra_points", "x"), "MGP": ("n_comp", "x"), "GENN": ("deep", "x"), "MFK": ("rho_regr", "nope"),
           "MFKPLS": ("poly", 3), "MFKPLSK": ("poly", 3)}
VALID = {"KRG": ("theta0", [.3]), "RBF": ("reg", .5), "IDW": ("p", 3.0), "RMTC": ("approx_order", 6), "RMTB": ("approx_order", 6),
         "GENN": ("deep", 3), "MFK": ("theta0", [.4])}


def request(sm, spec, op):
    """The request that has to be rejected; None if it does not apply to this model now."""
    w, n = op["what"], op["n"]
    nx, ny = spec["nx"], spec["ny"]
    x = U.queries(spec, "bad", n)
    y = np.ones((n, ny))
    m = spec["model"]
    if w == "set-count":
        return lambda: sm.set_training_values(x, np.ones((n + 1, ny)))
    if w == "set-type":
        return (lambda: sm.set_training_values(x.tolist(), y)) if op["a"] < .5 else (lambda: sm.set_training_values(x, y.tolist()))
    if w == "set-rank":
        return lambda: sm.set_training_values(x.reshape(n, 1, nx), y) if op["a"] < .5 else sm.set_training_values(x, y.reshape(n, 1, ny))
    if w == "upd-count":
        return lambda: sm.update_training_values(np.ones((50 + n, ny)))
    if w == "upd-type":
        return lambda: sm.update_training_values([1.0, 2.0])
    if w == "upd-name":
        return lambda: sm.update_training_values(y, name="nobody")
    if w in ("der-unsupported", "der-kx", "der-kxtype", "der-count", "der-upd"):
        if not sm.supports["training_derivatives"]:
            if w == "der-upd":
                return lambda: sm.update_training_derivatives(y, 0)
            return lambda: sm.set_training_derivatives(x, y, 0)
        if w == "der-kx":
            return lambda: sm.set_training_derivatives(x, y, nx + int(op["a"] * 3))
        if w == "der-kxtype":
            return lambda: sm.set_training_derivatives(x, y, "0")
        if w == "der-count":
            return lambda: sm.set_training_derivatives(x, np.ones((n + 2, ny)), 0)
        if w == "der-upd":
            return lambda: sm.update_training_derivatives(np.ones((60, ny)), 0)
        return None
    if w == "opt-unknown":
        def f():
            sm.options["no_such_option"] = 1
        return f
    if w == "opt-invalid":
        k, v = INVALID[m]

        def f():
            sm.options[k] = v
        return f
    if w == "opt-update":
        k, v = INVALID[m]
        d = {"print_problem": not sm.options["print_problem"]}
        if m in VALID:
            d[VALID[m][0]] = VALID[m][1]
        d[k if op["a"] < .5 else "no_such_option"] = v
        return lambda: sm.options.update(d)
    if w == "new-bad":
        k, v = INVALID[m]
        return lambda: type(sm)(**{k: v})
    if w == "ask-dim":
        z = np.ones((n, nx + 1)) if op["a"] < .6 or nx == 1 or m == "MGP" else np.ones((n, nx - 1))
        req = U.requests(spec)[int(op["a"] * 7) % len(U.requests(spec))]
        return lambda: U.ask(sm, req, z)
    if w == "ask-type":
        req = U.requests(spec)[int(op["a"] * 7) % len(U.requests(spec))]
        return lambda: U.ask(sm, req, [[0.5] * nx])
    if w == "ask-rank":
        return lambda: sm.predict_values(x.reshape(n, 1, nx))
    if w == "ask-kx":
        if not sm.supports["derivatives"]:
            return None
        return lambda: sm.predict_derivatives(x, nx + int(op["a"] * 3))
    if w == "ask-unsupported":
        for s, f in (("variances", sm.predict_variances), ("output_derivatives", sm.predict_output_derivatives),
                     ("derivatives", lambda z: sm.predict_derivatives(z, 0))):
            if not sm.supports[s]:
                return lambda: f(x)
    return None


def options(sm):
    return {k: sm.options[k] for k in sm.options._declared_entries}


def run(case, rec):
    spec = case["spec"]
    m = spec["model"]
    P, Q = Session(spec), Session(spec)
    after = False
    for i, op in enumerate(case["ops"]):
        k = op["op"]
        rec.op(k)
        if k == "bad":
            f = request(P.sm, spec, op)
            if f is None:
                continue
            o = U.outcome(f)
            rec.log("bad", op["what"], o.ok, o.err)
            rec.state(m, op["what"], P.trained, bool(P.data))
            if o.ok:
                if not P.trained and op["what"].startswith("ask"):
                    return bad("accepted", "step %d: %s on an untrained model was answered: %r" % (i, op["what"], o.v), model=m, what=op["what"])
                return bad("accepted", "step %d: invalid request %s was accepted and gave %r" % (i, op["what"], o), model=m, what=op["what"])
            rec.fault("rejected: " + op["what"])
            after = True
            a, b = options(P.sm), options(Q.sm)
            for n in a:
                if not eq(a[n], b[n]):
                    return bad("option-changed", "step %d: after rejected %s option %s is %r, was %r" % (i, op["what"], n, a[n], b[n]),
                               model=m, what=op["what"])
            continue
        res = []
        for s in (P, Q):
            if k == "set":
                res.append(U.outcome(s.set, op["data"], op["nt"]))
            elif k == "update":
                res.append(U.outcome(s.update, op["y"]) if s.data else None)
            elif k == "opt":
                res.append(U.outcome(s.option, op["k"], op["v"]))
            elif k == "ask":
                res.append(U.outcome(U.ask, s.sm, op["req"], U.queries(spec, op["q"], op["n"])) if s.trained else None)
            elif k == "train":
                res.append(s.train(op["np"]) if s.data else None)
        a, b = res
        if a is None:
            continue
        if k != "ask":
            a, b = U.Out(a.ok, err=a.err, msg=a.msg), U.Out(b.ok, err=b.err, msg=b.msg)
        rec.log(k, a.v if a.ok else a.err)
        if not U.same(a, b, 1e-12):
            return bad("rejected-request-mattered", "step %d (%s): %r; without the rejected requests: %r" % (i, k, a, b), model=m)
        if k == "train" and a.ok:
            if after:
                rec.nontrivial = True
            x = U.queries(spec, 0, 3)
            for q in U.requests(spec):
                u, v = (U.outcome(U.ask, s.sm, q, x.copy()) for s in (P, Q))
                rec.log(q, u.v if u.ok else u.err)
                if not U.same(u, v, 1e-12):
                    return bad("rejected-request-mattered", "step %d, request %s after training: %r; without the rejected requests: %r" % (i, q, u, v), model=m)
    return None
