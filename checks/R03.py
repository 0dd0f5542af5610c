"""A seeded neural network training is repeatable whatever else uses random numbers."""
import copy, random, sys
import numpy as np
from sim import universe as U, comp, inject
from sim.core import bad
from sim.sched import Sched
from checks.H02 import EXC

TECH = "seeded environments of a seeded training (process-wide random state, other users of it before, during and in other threads, earlier failed trainings); models compared"
LEVEL = "exploration"
N = {"quick": 500, "thorough": 25000}
RULE = ("a case trains one network specification with one explicit seed alone and in 1-3 other environments; non-trivial when random numbers "
        "were drawn, a fault was injected or threads switched meanwhile")
REAL = ["smt.surrogate_models.GENN, smt.utils.neural_net"]
STUB = ["process-wide random state", "thread scheduling (baton scheduler)"]
STATES = "hash of (options, data set, environment kinds)"
ASSUME = ["the seed option is set explicitly, zero included"]


def gen(r, i, tier):
    spec = U.gen_spec(r, ["GENN"])
    spec["opts"]["seed"] = r.choice([0, 0, 1, 7, r.randint(0, 2 ** 32 - 1)])
    spec["opts"]["mini_batch_size"] = r.choice([1, 2, 3, 64])
    spec["nt"] = r.choice([2, 5, 7])
    spec["deriv"] = True
    envs = []
    for _ in range(r.choice([1, 2, 3])):
        e = {"kind": r.choice(["state", "noise", "threads", "failed", "again", "callback"]), "np": r.randint(0, 99)}
        e["others"] = [other(r) for _ in range(r.randint(1, 3))]
        e["at"], e["occ"] = r.random(), r.random()
        e["exc"] = r.choice(["kbd", "mem"])
        e["sched"] = {"mode": "random", "seed": r.randint(0, 10 ** 9), "gap": r.choice([5, 20, 80, 300]), "first": r.randrange(2)}
        envs.append(e)
    return {"spec": spec, "data": r.randint(0, 30), "np": r.randint(0, 99), "ops": envs, "load": spec["ny"] == 1 and r.random() < .3}


def other(r):
    k = r.choice(["genn", "genn", "draw", "seed", "sample", "kpls"])
    o = {"k": k}
    if k == "genn":
        o["spec"] = U.gen_spec(r, ["GENN"])
        if r.random() < .5:
            o["spec"]["opts"].pop("seed", None)
    elif k == "sample":
        o["spec"] = comp.gen_sampling(r, ("LHS", "Random"))
        if o["spec"]["opts"].get("criterion") == "ese":
            o["spec"]["opts"]["criterion"] = "cm"
    elif k == "kpls":
        o["spec"] = U.gen_spec(r, ["KPLS"])
    else:
        o["v"] = r.randint(0, 5)
    return o


def use(o):
    k = o["k"]
    if k in ("genn", "kpls"):
        m = U.build(o["spec"])
        U.feed(m, U.training(o["spec"], 2))
        U.outcome(m.train)
    elif k == "draw":
        for _ in range(o["v"] + 1):
            np.random.permutation(6)
            np.random.randn(3)
            random.random()
    elif k == "seed":
        np.random.seed(o["v"])
        random.seed(o["v"])
    else:
        U.outcome(comp.sample, o["spec"])


def make(case):
    from smt.surrogate_models.genn import load_smt_data
    spec = case["spec"]
    m = U.build(spec)
    d = U.training(spec, case["data"])
    if case["load"]:
        load_smt_data(m, d[0][3], d[0][4], np.hstack([e[4] for e in d[1:]]))
    else:
        U.feed(m, d)
    return m


def run(case, rec):
    spec = case["spec"]
    ps = U.probes(spec, 0, 3)
    A = make(case)
    np.random.seed(case["np"])
    oa = U.outcome(A.train)
    if not oa.ok:
        # an option the library refuses is refused everywhere
        rec.log("untrained", oa.err)
        B = make(case)
        np.random.seed(case["np"] + 1)
        ob = U.outcome(B.train)
        return bad("not-reproduced", "%r, then %r" % (oa, ob), env="state") if not U.same(oa, ob) else None
    ref = U.Ref(A, spec, ps)
    history = copy.deepcopy(A.model.training_history) if hasattr(A.model, "training_history") else None
    rec.log(*[o.v for o in ref.ans.values()])
    rec.state(spec["opts"], case["data"], [e["kind"] for e in case["ops"]])
    for n, e in enumerate(case["ops"]):
        k = e["kind"]
        rec.op(k)
        np.random.seed(1000 + e["np"])
        B = make(case)
        if k == "state":
            np.random.rand(e["np"])
            ob = U.outcome(B.train)
            rec.nontrivial = True
        elif k == "noise":
            for o in e["others"]:
                use(o)
            ob = U.outcome(B.train)
            rec.nontrivial = True
        elif k == "again":
            B = A                                   # the same instance a further time
            ob = U.outcome(B.train)
            rec.nontrivial = True
        elif k == "failed":
            C = make(case)
            with inject.Sites() as sites:
                U.outcome(C.train)
            site = inject.choose(sites.eligible(), e["at"], e["occ"])
            if site is None:
                continue
            try:
                with inject.Interrupt(site[0], site[1], site[2], EXC[e["exc"]]("injected")) as it:
                    B.train()
            except BaseException as x:
                if isinstance(x, SystemExit):
                    raise
            if it.fired:
                rec.fault("%s during training" % e["exc"])
            ob = U.outcome(B.train)
        elif k == "callback":
            # every evaluation of the loss is accompanied by other random numbers
            used = [0]

            def trace(frame, event, arg):
                if event == "call" and inject.in_scope(frame.f_code.co_filename):
                    used[0] += 1
                    if used[0] % 7 == 0:
                        np.random.rand(2)
                return None
            sys.settrace(trace)
            try:
                ob = U.outcome(B.train)
            finally:
                sys.settrace(None)
            rec.nontrivial = True
        else:
            sch = Sched(e["sched"], rng_states=False)
            box = {}
            sch.spawn(lambda: box.update(o=U.outcome(B.train)))
            sch.spawn(lambda: [use(o) for o in e["others"]] and None)
            sch.run()
            ob = box.get("o") or U.Out(False, err=repr(sch.tasks[0].error))
            rec.probe("switches", len(sch.switches))
            rec.nontrivial = rec.nontrivial or bool(sch.switches)
        if not ob.ok:
            return bad("not-reproduced", "environment %d (%s): %r" % (n, k, ob), env=k)
        for q, want in ref.ans.items():
            got = U.outcome(U.ask, B, q[0], U.queries(spec, q[1], q[2]))
            if got.ok != want.ok or (got.ok and not np.array_equal(got.v, want.v, equal_nan=True)):
                return bad("not-reproduced", "environment %d (%s), request %s: %r, alone %r" % (n, k, q[0], got, want), env=k)
        if history is not None and k != "again" and repr(history) != repr(B.model.training_history):
            return bad("history", "environment %d (%s): the recorded course of the training differs" % (n, k), env=k)
    return None
