"""Without a cache directory, training and prediction touch no file."""
import contextlib, os
import numpy as np
from sim import seams, universe as U, comp
from sim.core import bad
from sim.session import Session
from checks.H01 import gen_ops
from checks import K01, L02, H02
from sim.disk import SimDisk

LEVEL = "exploration"
N = {"quick": 320, "thorough": 9000}
RULE = ("a case trains and queries one model (any surrogate, mixture of experts, variable fidelity), runs a history of one surrogate "
        "in which factorizations, solves and optimizer runs fail and trainings are interrupted, or runs a sampling, with no "
        "cache directory configured, in a working directory holding decoy files, on a disk on which every operation fails; "
        "non-trivial when the model was trained and queried under the failing disk and compared with an undisturbed twin")
REAL = ["smt.surrogate_models, smt.applications (MFK, MOE, VFM), smt.sampling_methods", "compiled extensions"]
STUB = ["file system (simulated disk that fails every operation and records every access)", "numpy global random state"]
STATES = "hash of (model, request kinds)"
ASSUME = ["modules the code imports lazily are loaded by a first undisturbed run"]

DECOYS = ("None", "data_dir", "_cache", "")


def gen(r, i, tier):
    u = r.random()
    if u < .35:
        spec = U.gen_spec(r)
        ops = gen_ops(r, spec, r.randint(1, 5))
        for op in ops:
            if op["op"] in ("train", "ask") and r.random() < .6:
                op["fail"] = gen_fail(r, spec["model"])
        if r.random() < .5:
            ops.insert(r.randint(1, len(ops)), H02.gen_fault(r))
        return {"kind": "history", "spec": spec, "ops": ops, "err": r.choice(["eio", "enospc", "erofs"])}
    if u < .75:
        return {"kind": "sm", "spec": U.gen_spec(r), "data": r.randint(0, 30),
                "explicit": r.random() < .6, "err": r.choice(["eio", "enospc", "erofs", "crash"])}
    if u < .85:
        return {"kind": "comp", "spec": comp.gen_spec(r), "data": r.randint(0, 30), "err": "eio"}
    return {"kind": "sampling", "spec": comp.gen_sampling(r), "err": "eio"}


def gen_fail(r, model):
    if model in U.KRIGING and r.random() < .8:
        return {"by": "K01", "plans": [K01.gen_plan(r) for _ in range(r.choice([1, 1, 2]))]}
    p = L02.gen_plan(r)
    p["exc"] = r.choice(["lin", "val", "mem"])
    return {"by": "L02", "plan": p}


def failing(f, rec=None):
    if f is None:
        return contextlib.nullcontext()
    return K01.Plans(f["plans"], 200) if f["by"] == "K01" else L02.Fail(f["plan"])


def history(case, rec, sites):
    """Runs the history; `sites` collects (first run) or gives (second run) the interrupted lines."""
    spec = case["spec"]
    s = Session(spec)
    out = []
    if not hasattr(sites, "got"):
        sites.got = {}
    for i, op in enumerate(case["ops"]):
        k = op["op"]
        if k == "set":
            s.set(op["data"], op["nt"])
        elif k == "update":
            if s.data:
                s.update(op["y"])
        elif k == "opt":
            s.option(op["k"], op["v"])
        elif k == "ask" and s.trained:
            f = failing(op.get("fail"))
            with f:
                out.append(U.outcome(U.ask, s.sm, op["req"], U.queries(spec, op["q"], op["n"])))
            note(f, rec)
        elif k == "train" and s.data:
            f = failing(op.get("fail"))
            with f:
                try:
                    out.append(s.train(op["np"]))
                except inject_errors as e:
                    s.trained = False
                    out.append(U.outcome(reraise, e))
            note(f, rec)
        elif k == "itrain" and s.data:
            if i not in sites.got:
                sites.got[i] = H02.interrupted(op, s.fresh, lambda a: a.train(), rec)
            if sites.got[i] is not None:
                fired, err, _ = H02.cut(sites.got[i], op, s.sm.train, rec, spec["model"])
                s.trained = err is None and not fired
    return out


from sim.inject import StepLimit
inject_errors = (MemoryError, KeyboardInterrupt, StepLimit)


def reraise(e):
    raise RuntimeError(type(e).__name__)


def note(f, rec):
    n = getattr(f, "fired", 0)
    n = sum(n.values()) if isinstance(n, dict) else n
    if n and rec is not None:
        rec.fault("numerical routine fails")


class Sites:
    pass


def shrink(case):
    if case.get("kind") == "history":
        from sim.core import default_shrink
        yield from default_shrink(case)
    if case.get("kind") == "sm":
        for k in list(case["spec"]["opts"]):
            if k in ("xlimits", "num_ctrl_pts"):
                continue
            import copy
            c = copy.deepcopy(case)
            del c["spec"]["opts"][k]
            yield c


def work(case, rec, sites):
    """(outcome, list of answers)"""
    np.random.seed(5)
    if case["kind"] == "history":
        return history(case, rec, sites)
    if case["kind"] == "sampling":
        return [U.outcome(comp.sample, case["spec"])]
    spec = case["spec"]
    if case["kind"] == "sm":
        extra = {"data_dir": None} if case["explicit"] and spec["model"] in ("RMTC", "RMTB") else {}
        sm = U.build(spec, **extra)
        U.feed(sm, U.training(spec, case["data"]))
        out = [U.train(sm, 7)]
        if out[0].ok:
            for q in U.requests(spec):
                out.append(U.outcome(U.ask, sm, q, U.queries(spec, 0, 3)))
        return out
    return comp.work(spec, case["data"])


def run(case, rec):
    root = os.path.join(os.getcwd(), "disk")
    os.makedirs(root)
    for d in DECOYS:
        p = os.path.join(root, d)
        if not os.path.isdir(p):
            os.makedirs(p)
        with open(os.path.join(p, "decoy.dat"), "wb") as h:
            h.write(b"\x80\x04}.")
    os.chdir(root)
    sites = Sites()
    listing = sorted(os.listdir(root))
    want = work(case, rec, sites)
    disk = SimDisk(root)
    for q in range(2000):
        disk.plan[q] = case["err"] if case["err"] != "crash" else "eio"
    seams.DISK = disk
    try:
        got = work(case, rec, sites)
    finally:
        seams.DISK = None
    name = case["spec"].get("model") or case["spec"].get("method")
    acc = ["%s %s" % x[:2] for x in disk.log] + ["%s %s" % x for x in disk.outside]
    rec.log(name, len(acc), [o.ok for o in got])
    rec.fault("every file operation fails" if want and want[0].ok else "every file operation fails (untrainable)")
    rec.state(name, len(got))
    for o in want:
        rec.log(o.v if o.ok else o.err)
    if acc:
        return bad("file-touched", "%s: %d file accesses without a cache directory: %s" % (name, len(acc), acc[:5]), model=name)
    now = sorted(os.listdir(root))
    if now != listing:
        return bad("file-created", "%s: working directory changed from %r to %r" % (name, listing, now), model=name)
    if name == "NestedLHS" or (name == "LHS" and "random_state" not in case["spec"]["opts"]):
        return None            # unseeded by design
    for a, b in zip(got, want):
        if not U.same(a, b, 1e-9):
            return bad("disk-dependence", "%s: with failing disk %r, without %r" % (name, a, b), model=name)
    return None
