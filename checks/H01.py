"""Retraining an instance equals training a fresh one; user-set options never change."""
from sim import universe as U
from sim.session import Session
from sim.core import bad

LEVEL = "exploration"
N = {"quick": 630, "thorough": 20000}
RULE = ("a case is a random surrogate specification and a random history of 4-12 operations (set/update training "
        "data, change options, train, predict, rejected requests); non-trivial when a second training of the same "
        "instance was compared with a fresh instance")
REAL = ["all of smt.surrogate_models, smt.applications.MFK/MFKPLS/MFKPLSK, compiled idw/rbf/rmts extensions"]
STUB = ["process-wide numpy random state (reseeded before every training)"]
STATES = "hash of (model, option names, operation kinds of the history)"
ASSUME = ["reference = a new instance of the same code, so a defect shared by first and later trainings is out of reach here (H06)"]


def gen_ops(r, spec, n):
    ops = [{"op": "set", "data": r.randint(0, 30), "nt": spec["nt"]}]
    if r.random() < .8:
        ops.append({"op": "train", "np": r.randint(0, 99)})
    for _ in range(n):
        u = r.random()
        if u < .25:
            ops.append({"op": "set", "data": r.randint(0, 30), "nt": max(4, spec["nt"] + r.choice([0, 0, 0, 1, 2, -1]))})
        elif u < .35:
            ops.append({"op": "update", "y": r.randint(0, 30)})
        elif u < .50:
            alt = U.gen_spec(r, [spec["model"]], nx=spec["nx"])
            keys = [k for k in alt["opts"] if k not in ("xlimits", "optim_var")]
            r.shuffle(keys)
            for k in keys[: r.randint(1, 2)]:
                ops.append({"op": "opt", "k": k, "v": alt["opts"][k]})
            if "xlimits" in spec["opts"] and r.random() < .5:
                # other bounds, with all points still inside
                ops.append({"op": "opt", "k": "xlimits", "v": U.nd([[a - (b - a) * r.choice([0, 0, .5]), b + (b - a) * r.choice([0, .25, 2.])] for a, b in spec["lim"]])})
        elif u < .75:
            ops.append({"op": "train", "np": r.randint(0, 99)})
        else:
            ops.append({"op": "ask", "req": r.choice(U.requests(spec)), "n": r.choice([1, 2, 5]), "q": r.randint(0, 9)})
    ops.append({"op": "train", "np": r.randint(0, 99)})
    return ops


def gen(r, i, tier):
    spec = U.gen_spec(r)
    return {"spec": spec, "ops": gen_ops(r, spec, r.randint(2, 7))}


def run(case, rec):
    spec = case["spec"]
    s = Session(spec)
    ntrain = 0
    hist = []
    for i, op in enumerate(case["ops"]):
        k = op["op"]
        hist.append(k)
        rec.op(k)
        if k == "set":
            s.set(op["data"], op["nt"])
        elif k == "update":
            if not s.data:
                continue
            s.update(op["y"])
        elif k == "opt":
            s.option(op["k"], op["v"])
        elif k == "ask":
            if s.trained:
                o = U.outcome(U.ask, s.sm, op["req"], U.queries(spec, op["q"], op["n"]))
                rec.log("ask", op["req"], o.v if o.ok else o.err)
        elif k == "train":
            if not s.data:
                continue
            got = s.train(op["np"])
            ntrain += 1
            want, ref = s.reference(op["np"])
            rec.log("train", got.ok, want.ok, got.err)
            if ntrain > 1:
                rec.nontrivial = True
            rec.state(spec["model"], ",".join(sorted(s.opts)), ",".join(hist))
            if got.ok != want.ok or got.err != want.err:
                return bad("retrain-outcome", "step %d: retrained: %r; fresh: %r" % (i, got, want), model=spec["model"])
            if got.ok:
                d = U.compare(s.sm, ref, spec)
                if d:
                    return bad("retrain-differs", "step %d, request %s: retrained gives %r, fresh gives %r" % (i, d[0], d[1], d[2]),
                               model=spec["model"])
        a = s.altered()
        if a:
            return bad("option-altered", "step %d (%s): option %s" % (i, k, a), model=spec["model"], option=a.split(":")[0])
    return None
