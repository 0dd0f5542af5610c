"""The optimizer under failures: an error, never a falsified record; usable again afterwards."""
import copy
import numpy as np
from sim import universe as U, opt, inject
from sim.core import bad
from sim.opt import World, exc

TECH = "seeded fault injection into optimization runs (objective, evaluator, training, inner search, interrupts); the record is checked against the log of evaluations, later runs against undisturbed ones"
LEVEL = "exploration"
N = {"quick": 200, "thorough": 10000}
RULE = ("a case draws an optimization problem and 1-3 runs of one optimizer object, each with a fault plan (objective raises, evaluator raises, "
        "loses or adds results, inner searches end without success or raise, factorizations fail, an interrupt arrives at a line), then an "
        "undisturbed run that is compared with a fresh optimizer's; non-trivial when a fault fired")
REAL = ["smt.applications.EGO and mixed_integer, kriging surrogates, LHS", "scipy.optimize except where it fails by plan"]
STUB = ["objective function and evaluator", "chosen calls of scipy.optimize.minimize, scipy.linalg.cholesky/qr (fail by plan)",
        "process-wide numpy random state (seeded)"]
STATES = "hash of (criterion, fault kind, position, outcome)"
ASSUME = ["the objective is a pure function of its point", "the inner search fails as its interface allows: success=False or an exception"]


def gen(r, i, tier):
    spec = opt.gen_spec(r)
    spec["opts"].setdefault("random_state", r.randint(0, 99))
    spec["opts"]["n_max_optim"] = r.choice([1, 1, 2, 3])
    ops = []
    for _ in range(r.choice([1, 1, 2])):
        k = r.choice(["obj", "obj", "ev-raise", "ev-short", "ev-long", "search", "search", "search", "search-raise", "factor", "factor", "line", "line"])
        ops.append({"kind": k, "at": r.choice([0, 0, 1, 1, 2, 3, 5]), "len": r.choice([1, 1, 2, 4, 50]), "exc": r.choice(["kbd", "mem", "lin", "ose", "fpe", "val"]),
                    "frac": r.random(), "occ": r.random(), "np": r.randint(0, 9)})
    return {"spec": spec, "ops": ops, "np": r.randint(0, 9)}


def shrink(case):
    from sim.core import default_shrink
    for c in default_shrink(case):
        if c["ops"]:
            yield c
    for k in list(case["spec"]["opts"]):
        if k not in ("n_iter", "random_state"):
            c = copy.deepcopy(case)
            del c["spec"]["opts"][k]
            yield c


def run(case, rec):
    spec = case["spec"]
    o = spec["opts"]
    par = o.get("n_parallel", 1)
    bound = o["n_iter"] * par * o.get("n_max_optim", 20) * o["n_start"]
    w = World()

    def hook(k, fun, x):
        op = w.op
        if op is None or not op["kind"].startswith("ev-") or k - base[0] != op["at"]:
            return None
        w.fired += 1
        if op["kind"] == "ev-raise":
            w.raised = exc(op["exc"])
            raise w.raised
        y = np.asarray(fun(x))
        if op["kind"] == "ev-short":
            return y[:-1] if len(y) > 1 else y[:0]
        return np.vstack([y, y[:1] + 1])
    ev = opt.evaluator(spec["evaluator"], case["np"], hook)
    ego = opt.build(spec, ev=ev)
    base = [0]
    for i, op in enumerate(case["ops"]):
        fun = opt.Objective(spec)
        w.op, w.searches, w.fired, w.raised, w.factors, w.natural = op, 0, 0, None, 0, 0
        base[0] = ev.n
        ev.log = fun.log
        if op["kind"] == "obj":
            def before(n, op=op):
                if n == op["at"]:
                    w.fired += 1
                    w.raised = exc(op["exc"])
                    raise w.raised
            fun.before = before
        inj = None
        if op["kind"] == "line":
            e2 = opt.build(spec, ev=opt.evaluator(spec["evaluator"], case["np"]))
            with inject.Sites() as st:
                opt.run(e2, opt.Objective(spec), op["np"])
            site = inject.choose([s for s in st.eligible() if "applications" in s[0] or op["frac"] < .3], (op["frac"] * 7.3) % 1, op["occ"])
            if site is None:
                continue
            w.raised = exc(op["exc"])
            inj = inject.Interrupt(site[0], site[1], site[2], w.raised)
        rec.op(op["kind"])
        err = res = None
        with w.patched():
            try:
                np.random.seed(op["np"])
                if inj:
                    with inj:
                        res = ego.optimize(fun)
                else:
                    res = ego.optimize(fun)
            except BaseException as e:
                if isinstance(e, SystemExit):
                    raise
                err = e
        if inj:
            w.fired += inj.fired
        rec.fault(op["kind"], w.fired)
        rec.log(op["kind"], w.fired, type(err).__name__, len(fun.log), w.searches)
        rec.state(o["criterion"], op["kind"], op["at"] if not inj else site, type(err).__name__)
        what = "run %d, %s (%s) fired %d times: " % (i, op["kind"], op["exc"], w.fired)
        if w.searches > bound:
            return bad("unbounded", what + "%d inner searches, at most %d expected" % (w.searches, bound))
        if err is None:
            why = opt.account(spec, res, fun.log, strict=w.full())
            if why:
                return bad(why[0], what + why[1], kind=op["kind"])
            if w.fired and op["kind"] in ("obj", "ev-raise"):
                return bad("failure-swallowed", what + "no error, %d points recorded" % len(res[3]), kind=op["kind"])
        else:
            if not w.fired:
                # the problem itself may be too hard for the model, whoever runs it
                e2 = opt.run(opt.build(spec, ev=opt.evaluator(spec["evaluator"], case["np"])), opt.Objective(spec), op["np"])
                if e2.ok or e2.err != type(err).__name__:
                    return bad("after-failure", what + "%r; a fresh optimizer: %r" % (err, e2), kind=op["kind"])
            elif w.raised is not None and op["exc"] in ("kbd", "mem") and op["kind"] != "search-raise" and type(err) is not type(w.raised):
                return bad("failure-replaced", what + "%r" % err, kind=op["kind"])
    # undisturbed again
    w.op, w.searches, base[0] = None, 0, ev.n
    fa, fb = opt.Objective(spec), opt.Objective(spec)
    got = opt.run(ego, fa, case["np"], ev)
    ev2 = opt.evaluator(spec["evaluator"], case["np"])
    want = opt.run(opt.build(spec, ev=ev2), fb, case["np"], ev2)
    if not opt.same(got, want, 1e-6):
        return bad("after-failure", "after %s: %r; a fresh optimizer: %r" % ([p["kind"] for p in case["ops"]],
                   [U.short(np.asarray(a)) for a in got.v] if got.ok else got, [U.short(np.asarray(a)) for a in want.v] if want.ok else want))
    if got.ok:
        why = opt.account(spec, got.v, fa.log, strict=False)
        if why:
            return bad(why[0], "undisturbed run after %s: %s" % ([p["kind"] for p in case["ops"]], why[1]))
        rec.log(got.v[3], got.v[4])
    return None
