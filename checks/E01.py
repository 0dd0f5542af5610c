"""The optimizer's record is a true account of the evaluations."""
import numpy as np
from sim import universe as U, opt, clock
from sim.core import bad

TECH = "seeded simulated optimization runs (problem, options, evaluator order, hostile objectives) whose recorded history is checked against the log of every evaluation"
LEVEL = "exploration"
N = {"quick": 320, "thorough": 15000}
RULE = ("a case draws a problem (continuous or mixed variables, 1-3 of them), options, surrogate, starting design and an evaluator with its own "
        "order of work, and runs 1-2 optimizations under a simulated clock; every evaluation is logged by the simulator and the returned "
        "history, budget, bounds and optimum are checked against that log; non-trivial when an optimization returned a record")
REAL = ["smt.applications.EGO and mixed_integer, kriging surrogates, LHS", "scipy.optimize"]
STUB = ["objective function and evaluator", "process-wide numpy random state (seeded)", "clock", "operating system entropy"]
STATES = "hash of (criterion, parallel points, doe, evaluator, mixed types, points recorded)"
ASSUME = ["the objective is a pure function of its point; it may overwrite the array it was given",
          "objectives return finite values"]


def gen(r, i, tier):
    return {"spec": opt.gen_spec(r), "np": r.randint(0, 9), "scribble": r.random() < .3, "runs": r.choice([1, 1, 2]),
            "clock": r.choice(clock.KINDS)}


def run(case, rec):
    spec = case["spec"]
    o = spec["opts"]
    ev = opt.evaluator(spec["evaluator"], case["np"])
    ego = opt.build(spec, ev=ev)
    for k in range(case["runs"]):
        fun = opt.Objective(spec, case["scribble"])
        w = opt.World()
        with clock.SimClock(case["clock"], case["np"]) as c, w.patched():
            res = opt.run(ego, fun, case["np"] + k, ev)
        rec.simtime += c.covered
        rec.op("optimization")
        rec.op("evaluation", len(fun.log))
        if case["scribble"]:
            rec.fault("objective overwrites its argument", fun.calls)
        if spec["evaluator"] in ("reversed", "shuffled"):
            rec.fault("evaluations out of order", len(fun.log))
        if not res.ok:
            rec.log("failed", res.err)
            rec.probe("optimization raised " + str(res)[:50])
            if len(fun.log) == 0 and res.err not in ("LinAlgError", "ValueError"):
                return bad("no-run", "%r" % res, err=res.err)
            continue
        rec.nontrivial = True
        rec.log(res.v[3], res.v[4])
        rec.state(o["criterion"], o.get("n_parallel"), o.get("qEI"), spec["doe"], spec["evaluator"], spec.get("xt"), len(res.v[3]))
        # where an inner search fails of itself an iteration may find no point: then fewer are recorded
        why = opt.account(spec, res.v, fun.log, strict=w.full())
        if why:
            return bad(why[0], "run %d: %s" % (k, why[1]), criterion=o["criterion"], mixed=spec["mixed"])
        rec.probe("inner search failed of itself", w.natural)
        rec.probe("full budget used", len(res.v[3]) == spec["ndoe"] + o["n_iter"] * o.get("n_parallel", 1))
    return None
