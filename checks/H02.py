"""An interrupted or failed training is reported and leaves the instance (and the world) usable."""
import os, signal, sys, threading, warnings
import numpy as np
from sim import universe as U, inject, comp
from sim.session import Session
from sim.core import bad
from checks.H01 import gen_ops

TECH = "interrupts and failures injected at seeded lines of SMT code during training, retraining compared with a fresh instance"
LEVEL = "exploration"
N = {"quick": 500, "thorough": 16000}
RULE = ("a case is a random history of one instance (surrogate, mixture of experts or variable-fidelity model) in which one to "
        "three trainings are cut short by KeyboardInterrupt, MemoryError, LinAlgError, FloatingPointError or OSError raised at a "
        "seeded execution of a seeded line of SMT code; non-trivial when at least one interruption fired")
REAL = ["all of smt.surrogate_models, smt.applications.MFK/MFKPLS/MFKPLSK/MOE/VFM, smt.utils, compiled extensions"]
STUB = ["process-wide numpy random state (reseeded before every training)"]
STATES = "hash of (model, exception, file and line interrupted)"
ASSUME = ["clean-up code itself (finally, except, __exit__) is not interrupted a second time",
          "reference = a new instance of the same code that was never interrupted"]
EXC = {"kbd": KeyboardInterrupt, "mem": MemoryError, "lin": np.linalg.LinAlgError, "fpe": FloatingPointError, "ose": OSError}


def gen_fault(r):
    return {"op": "itrain", "frac": r.random(), "occ": r.choice([0, 0, 1, r.random()]),
            "exc": r.choice(["kbd", "kbd", "mem", "mem", "lin", "fpe", "ose"]), "np": r.randint(0, 99)}


def gen(r, i, tier):
    if r.random() < .12:
        spec = comp.gen_spec(r)
        return {"comp": True, "spec": spec, "data": r.randint(0, 9), "ops": [gen_fault(r) for _ in range(r.randint(1, 2))],
                "before": r.random() < .4, "world": r.randint(0, 4)}
    spec = U.gen_spec(r)
    if spec["model"] in ("RMTC", "RMTB") and r.random() < .3:
        spec["opts"]["print_global"] = False
    ops = gen_ops(r, spec, r.randint(0, 3))
    for _ in range(r.choice([1, 1, 2, 3])):
        ops.insert(r.randint(1, len(ops) - 1), gen_fault(r))
    if r.random() < .3:
        ops.append(gen_fault(r))
        ops.append({"op": "train", "np": r.randint(0, 99)})
    return {"spec": spec, "ops": ops, "world": r.randint(0, 4)}


def shrink(case):
    from sim.core import default_shrink
    for c in default_shrink(case):
        if c["ops"]:
            yield c


def set_world(k):
    """Process-wide settings a user may have made: code that sets and restores them must restore these."""
    k = k % 5
    np.seterr(**[dict(divide="warn", over="warn", under="ignore", invalid="warn"), dict(all="ignore"),
                 dict(divide="ignore", over="warn", under="warn", invalid="ignore"), dict(divide="warn", over="ignore", under="ignore", invalid="ignore"),
                 dict(divide="print", over="ignore", under="warn", invalid="warn")][k])
    warnings.resetwarnings()
    for act in [["default"], ["ignore"], ["ignore", "once"], ["module"], ["always", "ignore"]][k]:
        warnings.filterwarnings(act, category=RuntimeWarning)
    np.set_printoptions(precision=[8, 3, 5, 12, 8][k], suppress=bool(k % 2), threshold=[1000, 50, 1000, 7, 1000][k])


def world():
    return {"stdout": id(sys.stdout), "stderr": id(sys.stderr), "np.geterr": dict(np.geterr()), "np.geterrcall": np.geterrcall(),
            "cwd": os.getcwd(), "warning filters": [str(f) for f in warnings.filters], "showwarning": id(warnings.showwarning),
            "open descriptors": len(os.listdir("/proc/self/fd")), "threads": threading.active_count(),
            "interrupt handler": str(signal.getsignal(signal.SIGINT)), "np.printoptions": str(np.get_printoptions()), "recursion limit": sys.getrecursionlimit(),
            "environment": dict(os.environ), "__stdout__": id(sys.__stdout__)}


def interrupted(op, make, train, rec):
    """Runs train() on make()... returns (fired, outcome or exception)."""
    with inject.Sites() as st:
        np.random.seed(op["np"])
        try:
            train(make())
        except Exception:
            pass
    return inject.choose(st.eligible(), op["frac"], op["occ"])


def cut(site, op, fn, rec, model):
    """Runs fn with the interrupt; returns (fired, exception or None, result)."""
    inj = inject.Interrupt(site[0], site[1], site[2], EXC[op["exc"]]("injected"))
    err = res = None
    try:
        with inj:
            np.random.seed(op["np"])
            res = fn()
    except BaseException as e:
        if isinstance(e, SystemExit):
            raise
        err = e
    if inj.fired:
        rec.fault("%s at a line" % op["exc"])
        rec.state(model, op["exc"], site[0], site[1])
    return inj.fired, err, res


def judge(op, site, fired, err, was, model):
    if fired and op["exc"] in ("kbd", "mem") and not (err is not None and type(err) in (KeyboardInterrupt, MemoryError)):
        return bad("interrupt-swallowed", "%s raised at %s:%d (execution %d) never reached the caller: %r" % (
            op["exc"], site[0], site[1], site[2], err), model=model, exc=op["exc"])
    now = world()
    for k in was:
        if was[k] != now[k]:
            return bad("world-changed", "after %s at %s:%d: %s was %r, is %r" % (op["exc"], site[0], site[1], k,
                       str(was[k])[:300], str(now[k])[:300]), what=k)
    return None


def run(case, rec):
    set_world(case["world"])
    if case.get("comp"):
        return run_comp(case, rec)
    spec = case["spec"]
    m = spec["model"]
    s = Session(spec)
    cuts = 0
    for i, op in enumerate(case["ops"]):
        k = op["op"]
        rec.op(k)
        if k == "set":
            s.set(op["data"], op["nt"])
        elif k == "update":
            if s.data:
                s.update(op["y"])
        elif k == "opt":
            s.option(op["k"], op["v"])
        elif k == "ask":
            if s.trained:
                U.outcome(U.ask, s.sm, op["req"], U.queries(spec, op["q"], op["n"]))
        elif k == "itrain":
            if not s.data:
                continue
            arrays = [(e[3].copy(), e[4].copy()) for e in s.arrays()]
            site = interrupted(op, s.fresh, lambda a: a.train(), rec)
            if site is None:
                continue
            was = world()
            fired, err, _ = cut(site, op, s.sm.train, rec, m)
            cuts += fired
            s.trained = False if fired or err is not None else True
            rec.log("cut", site, fired, type(err).__name__)
            v = judge(op, site, fired, err, was, m)
            if v:
                return v
        elif k == "train":
            if not s.data:
                continue
            got = s.train(op["np"])
            rec.log("train", got.ok, got.err)
            if cuts:
                want, ref = s.reference(op["np"])
                if got.ok != want.ok or got.err != want.err:
                    return bad("retrain-outcome", "step %d: after an interruption: %r; fresh: %r" % (i, got, want), model=m)
                if got.ok:
                    d = U.compare(s.sm, ref, spec)
                    if d:
                        return bad("retrain-differs", "step %d, request %s: after an interruption %r, fresh %r" % (i, d[0], d[1], d[2]), model=m)
                    for q, a in ref.ans.items():
                        rec.log(q[0], a.v if a.ok else a.err)
        a = s.altered()
        if a:
            return bad("option-altered", "step %d (%s): option %s" % (i, k, a), model=m, option=a.split(":")[0])
    return None


def run_comp(case, rec):
    spec, seed = case["spec"], case["data"]
    m = spec["model"]
    ref = comp.build(spec, seed)
    want = comp.train(ref, spec)
    x = U.queries(spec, 0, 3)
    ans = {q: U.outcome(U.ask, ref, q, x) for q in comp.requests(spec)} if want.ok else {}
    go = (lambda a: a.train()) if m == "MOE" else (lambda a: a.predict_values(U.queries(spec, 0, 1)))
    a = comp.build(spec, seed)
    if case["before"]:
        comp.train(a, spec)
    for op in case["ops"]:
        rec.op("itrain")
        site = interrupted(op, lambda: comp.build(spec, seed), go, rec)
        if site is None:
            continue
        was = world()
        fired, err, _ = cut(site, op, lambda: go(a), rec, m)
        rec.log("cut", site, fired, type(err).__name__)
        v = judge(op, site, fired, err, was, m)
        if v:
            return v
        if m == "VFM" and fired and err is None:
            return None  # a numerical failure was absorbed by the hyperparameter search: trained, and never trained again
    got = comp.train(a, spec)
    if got.ok != want.ok or got.err != want.err:
        return bad("retrain-outcome", "after an interruption: %r; fresh: %r" % (got, want), model=m)
    for q, w in ans.items():
        g = U.outcome(U.ask, a, q, x)
        rec.log(q, w.v if w.ok else w.err)
        if not U.same(g, w):
            return bad("retrain-differs", "request %s: after an interruption %r, fresh %r" % (q, g, w), model=m)
    return None
