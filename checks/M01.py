"""Only feasible mixed-integer points reach the user and the models; conversions change no feasible point."""
import copy
import numpy as np
from sim import universe as U, comp, opt
from sim.core import bad
from sim.stream import Stream, KINDS

TECH = "seeded histories of sampling, conversions, trainings, predictions and optimizations over random mixed variables under hostile random streams and failing requests; every point judged"
LEVEL = "exploration"
N = {"quick": 540, "thorough": 16000}
RULE = ("a case draws mixed variables and makes 2-8 requests of one context: samples under a simulated random stream, conversions of relaxed points, predictions of "
        "wrapped surrogates whose inner points are observed, optimizations; non-trivial with more than one kind of request, a hostile stream or a rejected request")
REAL = ["smt.applications.mixed_integer, smt.sampling_methods, wrapped surrogates, EGO"]
STUB = ["random streams (seam on numpy's generators)", "the user's objective"]
STATES = "hash of (variable types, request kinds, stream)"
ASSUME = ["bounds of integer variables are whole numbers", "relaxed points lie inside the unfolded bounds; folded points carry whole level numbers"]
INNER = ["KRG", "KPLS", "LS", "RBF", "IDW", "QP"]


def gen(r, i, tier):
    xt, xl = opt.gen_types(r)
    if r.random() < .3:
        a, b = opt.gen_types(r)
        xt, xl = (xt + a)[:4], (xl + b)[:4]
    ops = []
    nu = len(opt.unfolded(xt, xl))
    for _ in range(r.randint(2, 7)):
        k = r.choice(["sample", "sample", "convert", "convert", "predict", "predict", "bad"])
        o = {"op": k, "seed": r.randint(0, 10 ** 6), "folded": r.random() < .5}
        if k == "sample":
            o["method"] = r.choice(["LHS", "LHS", "Random", "FullFactorial"])
            o["criterion"] = r.choice(["c", "center", "cm", "maximin", "m", "ese"]) if nu <= 5 else r.choice(["c", "cm", "m"])
            o["nt"] = r.choice([2, 3, 5, 9]) if o["criterion"] == "ese" else r.choice([2, 3, 7, 20])
            o["rs"] = r.choice([None, r.randint(0, 99)])
            o["stream"] = [r.choice(KINDS), r.choice(["real", "real", "identity", "reversed", "rotated"])]
            o["via"] = r.choice(["context", "class"])
            if o["criterion"] in ("m", "maximin") and o["stream"][0] == "mixed":
                o["stream"][0] = "lattice"
        elif k == "convert":
            o["n"] = r.choice([1, 2, 6])
            o["how"] = r.choice(["uniform", "ties", "extreme", "half", "whole", "feasible"])
        elif k == "predict":
            o["inner"] = r.choice(INNER)
            o["n"] = r.choice([1, 3, 5])
            o["how"] = r.choice(["uniform", "ties", "extreme", "half", "whole"])
            o["retrain"] = r.random() < .3
            o["names"] = r.random() < .3
        else:
            o["what"] = r.choice(["predict", "sample", "train", "types"])
        ops.append(o)
    if r.random() < .2:
        e = opt.gen_spec(r, True)
        e["opts"]["n_iter"] = min(2, e["opts"]["n_iter"])
        ops.insert(r.randrange(len(ops) + 1), {"op": "optimize", "ego": e, "stream": [r.choice(KINDS[1:]), "real"] if r.random() < .3 else ["real", "real"]})
    return {"xt": xt, "xl": xl, "ops": ops, "np": r.randint(0, 99), "work": r.random() < .5, "array": r.random() < .3}


def relaxed(xt, xl, seed, n, how):
    """Relaxed points of the unfolded space."""
    import random
    r = random.Random("relax/%s/%s" % (seed, how))
    lim = opt.unfolded(xt, xl)
    out = np.empty((n, len(lim)))
    for i in range(n):
        for j in range(len(lim)):
            lo, hi = lim[j]
            if how == "uniform":
                v = r.uniform(lo, hi)
            elif how == "ties":
                v = r.choice([lo, hi, .5 * (lo + hi), .5 * (lo + hi)])
            elif how == "extreme":
                v = r.choice([lo, hi, np.nextafter(lo, hi), np.nextafter(hi, lo)])
            elif how == "whole":
                v = min(hi, max(lo, np.floor(r.uniform(lo, hi + 1))))
            elif how == "half":
                v = min(hi, max(lo, np.floor(r.uniform(lo, hi)) + .5))
            else:
                v = r.uniform(lo, hi)
            out[i, j] = v
    if how == "feasible":
        out = reference_cast(xt, out)
    return out


def reference_cast(xt, x):
    out = np.array(x, float)
    for row in out:
        j = 0
        for t in xt:
            if t == "I":
                row[j] = np.round(row[j])
            if isinstance(t, str):
                j += 1
            else:
                m = int(np.argmax(row[j:j + t[1]]))
                row[j:j + t[1]] = 0
                row[j + m] = 1
                j += t[1]
    return out


def all_feasible(xt, xl, x, folded):
    for i, row in enumerate(np.atleast_2d(x)):
        if len(row) != (len(xt) if folded else len(opt.unfolded(xt, xl))):
            return "point %d has %d coordinates" % (i, len(row))
        why = opt.feasible(xt, xl, row, folded)
        if why:
            return "point %d: %s" % (i, why)
    return None


def spied(name, seen, **o):
    cls = U.classes()[name]

    class Spy(cls):
        def predict_values(self, x):
            seen.append(("values", np.array(x)))
            return cls.predict_values(self, x)

        def predict_variances(self, x):
            seen.append(("variances", np.array(x)))
            return cls.predict_variances(self, x)
    Spy.__name__ = cls.__name__
    return Spy(**o)


def context(case, folded):
    from smt.applications.mixed_integer import MixedIntegerContext
    xl = case["xl"]
    if case["array"] and len({len(l) for l in xl}) == 1 and all(isinstance(t, str) for t in case["xt"]):
        xl = np.array(xl, float)
    return MixedIntegerContext(opt.types(case["xt"]), xl, work_in_folded_space=folded)


def do_sample(case, o, ctxs, rec):
    from smt.applications.mixed_integer import MixedIntegerSamplingMethod
    from smt.sampling_methods import LHS, Random, FullFactorial
    xt, xl = case["xt"], case["xl"]
    kw = {}
    if o["method"] == "LHS":
        kw["criterion"] = o["criterion"]
        if o["rs"] is not None:
            kw["random_state"] = o["rs"]
    cls = {"LHS": LHS, "Random": Random, "FullFactorial": FullFactorial}[o["method"]]
    if o["via"] == "context":
        g = ctxs[o["folded"]].build_sampling_method(cls, **kw)
    else:
        g = MixedIntegerSamplingMethod(opt.types(xt), xl, cls, output_in_folded_space=o["folded"], **kw)
    with Stream(o["stream"][0], o["seed"], o["stream"][1]) as S:
        out = U.outcome(g, o["nt"])
    if S.n:
        rec.fault("stream %s/%s" % tuple(o["stream"]))
    if not out.ok:
        return bad("sampling-failed", "%s %s: %r" % (o["method"], kw, out), method=o["method"])
    x = np.asarray(out.v, float)
    rec.log("sample", x)
    if len(x) != o["nt"]:
        return bad("count", "%d points, %d asked" % (len(x), o["nt"]), method=o["method"])
    why = all_feasible(xt, xl, x, o["folded"])
    return bad("infeasible-sample", "%s %s, %s space: %s" % (o["method"], kw, "folded" if o["folded"] else "unfolded", why), method=o["method"]) if why else None


def do_convert(case, o, ctxs, rec):
    import smt.applications.mixed_integer as mi
    xt, xl = case["xt"], case["xl"]
    c = ctxs[o["folded"]]
    T = opt.types(xt)
    x = relaxed(xt, xl, o["seed"], o["n"], o["how"])
    x0 = x.copy()
    u = c.cast_to_discrete_values(x)
    rec.log("cast", u)
    why = all_feasible(xt, xl, u, False)
    if why:
        return bad("infeasible-cast", "%s becomes %s: %s" % (x.tolist(), np.asarray(u).tolist(), why), how=o["how"])
    if not np.array_equal(x, x0):
        return bad("points-altered", "by cast_to_discrete_values")
    want = reference_cast(xt, x)
    if not np.array_equal(u, want):
        return bad("wrong-cast", "%s becomes %s, %s is nearest" % (x.tolist(), u.tolist(), want.tolist()), how=o["how"])
    if not np.array_equal(c.cast_to_discrete_values(u), u):
        return bad("cast-changes-feasible", "%s becomes %s" % (u.tolist(), c.cast_to_discrete_values(u).tolist()))
    f = c.fold_with_enum_index(u)
    why = all_feasible(xt, xl, f, True)
    if why:
        return bad("infeasible-fold", "%s becomes %s: %s" % (u.tolist(), np.asarray(f).tolist(), why))
    if not np.array_equal(f, opt.fold(xt, u)):
        return bad("wrong-fold", "%s becomes %s" % (u.tolist(), f.tolist()))
    b = c.unfold_with_enum_mask(f)
    if not np.array_equal(b, u):
        return bad("round-trip", "%s is folded to %s and unfolded to %s" % (u.tolist(), f.tolist(), b.tolist()))
    if not np.array_equal(mi.fold_with_enum_index(T, mi.unfold_with_enum_mask(T, f)), f):
        return bad("round-trip", "%s is unfolded and folded to something else" % f.tolist())
    for row in f:
        l = c.cast_to_mixed_integer(row)
        for k, (t, v) in enumerate(zip(xt, l)):
            ok = v == row[k] and (t != "I" or isinstance(v, int)) if isinstance(t, str) else v == xl[k][int(row[k])]
            if not ok:
                return bad("wrong-levels", "%s becomes %s" % (row.tolist(), l))
    for k, t in enumerate(xt):
        if not isinstance(t, str):
            if list(c.cast_to_enum_value(k, [int(v) for v in f[:, k]])) != [xl[k][int(v)] for v in f[:, k]]:
                return bad("wrong-levels", "of variable %d" % k)
    if not np.array_equal(c.get_unfolded_xlimits(), opt.unfolded(xt, xl)) or c.get_unfolded_dimension() != len(opt.unfolded(xt, xl)):
        return bad("wrong-limits", "%s" % c.get_unfolded_xlimits())
    return None


def inner_opts(name):
    return {"print_global": False, **({"nugget": 1e-6, "theta0": [.05]} if name in ("KRG", "KPLS") else {}), **({"d0": 3.0} if name == "RBF" else {}),
            **({"n_comp": 1} if name == "KPLS" else {})}


def do_predict(case, o, ctxs, rec, n):
    xt, xl = case["xt"], case["xl"]
    folded = o["folded"]
    nu = len(opt.unfolded(xt, xl))
    nt = max(8, (nu + 1) * (nu + 2) // 2 + 2 if o["inner"] == "QP" else nu + 4)
    seen = []
    inner = spied(o["inner"], seen, **inner_opts(o["inner"]))
    wrap = ctxs[folded].build_surrogate_model(inner)
    plain = U.classes()[o["inner"]](**inner_opts(o["inner"]))
    for turn in range(2 if o["retrain"] else 1):
        u = reference_cast(xt, relaxed(xt, xl, "t%d/%d" % (o["seed"], turn), nt, "uniform"))
        u = np.unique(u, axis=0)
        f = opt.fold(xt, u)
        y = np.sin(u @ np.linspace(.3, 1, nu)[:, None]) + .1 * u[:, :1]
        wrap.set_training_values(f if folded else u, y)
        plain.set_training_values(u, y)
        np.random.seed(3)
        ow = U.outcome(wrap.train)
        np.random.seed(3)
        op = U.outcome(plain.train)
        if ow.ok != op.ok:
            return bad("training", "%s wrapped: %r, alone: %r" % (o["inner"], ow, op), inner=o["inner"])
        if not ow.ok:
            rec.log("untrained", ow.err)
            return None
        x = relaxed(xt, xl, "q%d/%d" % (o["seed"], turn), o["n"], o["how"])
        c = reference_cast(xt, x)
        # folded points: whole levels, but whole numbers only after rounding
        fx = opt.fold(xt, c)
        if folded:
            j = 0
            for k, t in enumerate(xt):
                if isinstance(t, str):
                    fx[:, k] = x[:, j]
                    j += 1
                else:
                    j += t[1]
        arg = fx if folded else x
        keep = arg.copy()
        reqs = ["predict_values"] + (["predict_variances"] if o["inner"] in ("KRG", "KPLS") else [])
        for q in reqs:
            del seen[:]
            got = U.outcome(getattr(wrap, q), arg)
            want = U.outcome(getattr(plain, q), c)
            for kind, p in seen:
                why = all_feasible(xt, xl, p, False)
                if why:
                    return bad("infeasible-prediction", "%s of %s asked at %s: %s" % (kind, o["inner"], p.tolist(), why), inner=o["inner"])
            rec.log(q, got.v if got.ok else got.err)
            if got.ok != want.ok or (got.ok and not U.close(got.v, want.v, 1e-9, 1e-12)):
                return bad("wrong-prediction", "%s of %s at %s: %r, the model at the feasible points gives %r" % (q, o["inner"], arg.tolist(), got, want), inner=o["inner"])
            if not np.array_equal(arg, keep):
                return bad("points-altered", "by %s" % q)
    return None


def do_optimize(o, rec):
    spec = o["ego"]
    f = opt.Objective(spec)
    ev = opt.evaluator(spec["evaluator"])
    with Stream(*[o["stream"][0], 1, o["stream"][1]]) as S:
        out = opt.run(opt.build(spec, ev), f, 5, ev)
    if o["stream"][0] != "real":
        rec.fault("stream %s/%s" % tuple(o["stream"]))
    rec.log("optimize", len(f.log), out.err)
    xt, xl = spec["xt"], spec["xl"]
    for n, (p, v) in enumerate(f.log):
        why = all_feasible(xt, xl, p, True)
        if why:
            return bad("infeasible-evaluation", "evaluation %d of the objective: %s" % (n, why))
    if out.ok:
        x_opt, X = np.asarray(out.v[0], float), np.asarray(out.v[3], float)
        why = all_feasible(xt, xl, x_opt, True) or all_feasible(xt, xl, X, False)
        if why:
            return bad("infeasible-record", why)
    return None


def do_bad(case, o, ctxs, rec):
    from smt.applications.mixed_integer import MixedIntegerContext
    from smt.sampling_methods import LHS
    xt, xl = case["xt"], case["xl"]
    c = ctxs[o["folded"]]
    if o["what"] == "types":
        r = U.outcome(MixedIntegerContext, opt.types(xt) + ["strange"], list(xl) + [[0, 1]])
    elif o["what"] == "sample":
        r = U.outcome(lambda: c.build_sampling_method(LHS, criterion="none such"))
    elif o["what"] == "train":
        w = c.build_surrogate_model(U.classes()["KRG"](print_global=False))
        r = U.outcome(w.set_training_values, np.zeros((3, 1 + len(opt.unfolded(xt, xl)))), "no values")
    else:
        w = c.build_surrogate_model(U.classes()["KRG"](print_global=False))
        r = U.outcome(w.predict_values, np.zeros((2, 1)))
    if not r.ok:
        rec.fault("rejected request")
    return None


def run(case, rec):
    np.random.seed(case["np"])
    ctxs = {True: context(case, True), False: context(case, False)}
    rec.state(case["xt"], [o["op"] + str(o.get("method", o.get("inner", o.get("how", "")))) for o in case["ops"]],
              [o["stream"] for o in case["ops"] if "stream" in o])
    if len({o["op"] for o in case["ops"]}) > 1:
        rec.nontrivial = True
    for n, o in enumerate(case["ops"]):
        rec.op(o["op"])
        if o["op"] == "sample":
            v = do_sample(case, o, ctxs, rec)
        elif o["op"] == "convert":
            v = do_convert(case, o, ctxs, rec)
        elif o["op"] == "predict":
            v = do_predict(case, o, ctxs, rec, n)
        elif o["op"] == "optimize":
            v = do_optimize(o, rec)
        else:
            v = do_bad(case, o, ctxs, rec)
        if v:
            return v
    return None
