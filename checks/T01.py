"""Several threads that query one trained model obtain the sequential answers."""
import copy
import numpy as np
from sim import universe as U, comp
from sim.core import bad
from sim.sched import Sched
from checks.H03 import make

TECH = "seeded interleavings of threads at line granularity over one shared trained model; answers compared with an identically trained one asked in sequence"
LEVEL = "exploration"
N = {"quick": 500, "thorough": 20000}
RULE = ("a case trains a random model twice alike; 2-4 tasks with requests and points of their own query one of them under a seeded scheduler "
        "that switches before lines of SMT code, the other one is asked the same requests in sequence; non-trivial when a switch happened inside a request")
REAL = ["all of smt.surrogate_models, smt.applications.MFK/MFKPLS/MFKPLSK/MOE/VFM, compiled extensions"]
STUB = ["thread scheduling (baton scheduler)", "process-wide numpy random state (per task)"]
STATES = "hash of (model, request kinds, switch points)"
ASSUME = ["switches happen between lines of SMT code and never inside a compiled routine, as the interpreter lock makes it",
          "printing is on in some runs; what is printed concurrently is not judged"]


def gen(r, i, tier):
    if r.random() < .25:
        spec = comp.gen_spec(r)
        kinds = comp.requests(spec)
    else:
        spec = U.gen_spec(r)
        kinds = U.requests(spec)
        if r.random() < .25:
            spec["opts"]["print_global"] = True
    nt = r.choice([2, 2, 3, 4])
    tasks = []
    for t in range(nt):
        tasks.append([{"req": r.choice(kinds), "n": r.choice([1, 1, 2, 3, 9]), "q": r.randint(0, 9), "again": r.random() < .2} for _ in range(r.choice([1, 1, 2, 3]))])
    return {"spec": spec, "data": r.randint(0, 30), "np": r.randint(0, 9), "tasks": tasks, "fresh": r.random() < .5,
            "sched": {"mode": "random", "seed": r.randint(0, 10 ** 9), "gap": r.choice([1, 2, 5, 13, 40]), "first": r.randrange(nt)}}


def shrink(case):
    from sim.core import default_shrink
    for c in default_shrink(case):
        yield c
    for t in range(len(case["tasks"])):
        for j in range(len(case["tasks"][t])):
            c = copy.deepcopy(case)
            del c["tasks"][t][j]
            if not c["tasks"][t]:
                del c["tasks"][t]
            if len(c["tasks"]) > 1:
                yield c


def points(spec, q):
    n = 1 if q["req"] == "e" else q["n"]
    return U.queries(spec, "t1/%d" % q["q"], n)


def run(case, rec):
    spec = case["spec"]
    m = spec["model"]
    A, oa = make(case)
    B, ob = make(case)
    if not (oa.ok and ob.ok):
        rec.log("untrained", oa.err, ob.err)
        return None
    want = {}
    for t, todo in enumerate(case["tasks"]):
        for j, q in enumerate(todo):
            want[t, j] = U.outcome(U.ask, A, q["req"], points(spec, q))
            if not case["fresh"]:
                U.outcome(U.ask, B, q["req"], points(spec, q))
    got = {}
    s = Sched(case["sched"])

    def body(t, todo):
        def f():
            for j, q in enumerate(todo):
                x = points(spec, q)
                x0 = x.copy()
                o = U.outcome(U.ask, B, q["req"], x)
                got[t, j] = o, bool(np.array_equal(x, x0))
        return f
    for t, todo in enumerate(case["tasks"]):
        s.spawn(body(t, todo), np_seed=3)
    s.run()
    rec.op("requests", len(got))
    rec.probe("switches", len(s.switches))
    if s.switches:
        rec.nontrivial = True
    rec.state(m, sorted(q["req"] for t in case["tasks"] for q in t), [a for a, b in s.switches][:8])
    rec.refined = s.refine(case)
    for t in s.tasks:
        if t.error is not None:
            return bad("thread-died", "task %d: %r" % (t.no, t.error), model=m)
    for k in sorted(want):
        o, kept = got[k]
        q = case["tasks"][k[0]][k[1]]
        w = want[k]
        rec.log(k, o.v if o.ok else o.err, len(s.switches))
        if o.ok and w.ok:
            ok = np.shape(o.v) == np.shape(w.v) and U.same(o, w)
        else:
            ok = o.ok == w.ok and o.err == w.err
        if not ok:
            return bad("concurrent-answer", "task %d, request %s: %r; in sequence: %r; %d switches %r" % (
                k[0], q["req"], o, w, len(s.switches), s.switches[:20]), model=m, req=q["req"][0])
        if not kept:
            return bad("points-altered", "task %d, request %s" % (k[0], q["req"]), model=m)
    return None
