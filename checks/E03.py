"""Seeded optimization runs are repeatable."""
import random
import numpy as np
from sim import universe as U, opt, clock
from sim.core import bad

TECH = "seeded simulated optimization runs repeated in other worlds (clock behaviour, evaluation order and latency, earlier runs, other users of random numbers) and compared"
LEVEL = "exploration"
N = {"quick": 140, "thorough": 8000}
RULE = ("a case runs one optimization problem with an integer random state as reference and 1-3 more times in worlds that differ in clock, evaluator "
        "order, reuse of the optimizer object, earlier optimizations, samplings and printing; all must evaluate the same points in the same order "
        "and return the same; non-trivial when a repetition was compared")
REAL = ["smt.applications.EGO and mixed_integer, kriging surrogates, LHS", "scipy.optimize"]
STUB = ["objective function and evaluator", "process-wide numpy random state (seeded alike before each run)", "clock", "operating system entropy (differs between worlds)"]
STATES = "hash of (criterion, options, world)"
ASSUME = ["the objective is a pure function of its point", "results are compared to 1e-6"]


def gen(r, i, tier):
    spec = opt.gen_spec(r)
    spec["opts"].setdefault("random_state", r.randint(0, 99))
    ops = []
    for _ in range(r.choice([1, 2, 3])):
        ops.append({"clock": r.choice(clock.KINDS), "ev": r.choice(["default", "rows", "reversed", "shuffled", "buffer"]), "reuse": r.random() < .4,
                    "before": r.choice(["none", "none", "other", "sampling", "draws"]), "verbose": r.random() < .2, "seed": r.randint(0, 999)})
    return {"spec": spec, "np": r.randint(0, 9), "ops": ops}


def shrink(case):
    from sim.core import default_shrink
    for c in default_shrink(case):
        if c["ops"]:
            yield c


def run(case, rec):
    from sim import seams
    spec = case["spec"]
    o = spec["opts"]
    ev0 = opt.evaluator("default", 0, lambda k, f, x: None)
    ego = opt.build(spec, ev=ev0)
    f0 = opt.Objective(spec)
    want = opt.run(ego, f0, case["np"], ev0)
    rec.log(want.v[3] if want.ok else want.err)
    reusable = ev0
    for i, op in enumerate(case["ops"]):
        seams.ENTROPY = random.Random(op["seed"])
        if op["before"] == "other":
            alt = dict(spec, fn=spec["fn"] + 1, opts=dict(o, random_state=op["seed"]))
            opt.run(opt.build(alt), opt.Objective(alt), op["seed"])
        elif op["before"] == "sampling":
            from smt.sampling_methods import LHS
            LHS(xlimits=np.array(spec["lim"], float), criterion="ese")(5)
        elif op["before"] == "draws":
            np.random.rand(op["seed"])
            random.seed(op["seed"])
        if op["reuse"]:
            e, ev = ego, reusable
        else:
            ev = opt.evaluator(op["ev"], op["seed"], lambda k, f, x: None)
            e = opt.build(spec, ev=ev, **({"verbose": True} if op["verbose"] else {}))
        f = opt.Objective(spec)
        with clock.SimClock(op["clock"], op["seed"]) as c:
            got = opt.run(e, f, case["np"], ev)
        rec.simtime += c.covered
        rec.fault("clock " + op["clock"])
        if op["ev"] in ("reversed", "shuffled") and not op["reuse"]:
            rec.fault("evaluations out of order", len(f.log))
        rec.op("reused optimizer" if op["reuse"] else "new optimizer")
        rec.state(o["criterion"], sorted(o), op["clock"], op["ev"], op["before"], op["reuse"])
        world = "%s clock, %s evaluator, before: %s, %s" % (op["clock"], op["ev"], op["before"], "same object" if op["reuse"] else "new object")
        if got.ok != want.ok or got.err != want.err:
            return bad("outcome-differs", "%s: %r, reference %r" % (world, got if not got.ok else "ok", want if not want.ok else "ok"))
        la, lb = f.log, f0.log
        if len(la) != len(lb) or not all(U.close(a[0], b[0], 1e-6, 1e-6) for a, b in zip(la, lb)):
            return bad("other-points", "%s: %s evaluated, reference %s" % (world, [list(a[0]) for a in la][:8], [list(a[0]) for a in lb][:8]))
        if got.ok and not opt.same(got, want, 1e-6):
            return bad("other-result", "%s: %s, reference %s" % (world, [U.short(np.asarray(a)) for a in got.v], [U.short(np.asarray(a)) for a in want.v]))
        rec.log(got.v[3] if got.ok else got.err)
    return None
