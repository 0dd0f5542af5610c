"""Trainers sharing one cache directory never disturb each other."""
import os
from sim import jobs, seams, universe as U
from sim.core import bad
from sim.disk import SimDisk, SimCrash
from sim.sched import Sched

LEVEL = "exploration"
N = {"quick": 400, "thorough": 15000}
RULE = ("a case lets 2-3 simulated processes train related jobs into one cache directory; the seeded scheduler switches between "
        "them before file operations and lines of SMT code, some are killed or suffer a disk error at a chosen file operation; "
        "every training that returns is compared with the same training alone, and so is a later training; non-trivial when "
        "at least one switch took place")
REAL = ["smt.surrogate_models RBF, IDW, LS, QP, RMTC, RMTB", "smt.utils.caching", "compiled extensions"]
STUB = ["thread scheduling (baton scheduler)", "file system (simulated disk)", "numpy global random state (per task)"]
STATES = "hash of the sequence of (task, file operation)"
ASSUME = ["processes are simulated by tasks with instances of their own in one address space; a killed one performs no further file operation"]


def gen(r, i, tier):
    base = jobs.gen_base(r, 0)
    pool = [base]
    if r.random() < .5:
        pool.append(jobs.related(r, base))
    nt = r.choice([2, 2, 3])
    tasks = []
    for t in range(nt):
        tasks.append([{"job": r.randrange(len(pool)), "again": r.random() < .3} for _ in range(r.choice([1, 1, 2]))])
    faults = []
    if r.random() < .35:
        faults.append([r.randrange(0, 24), r.choice(["kill", "kill", "eio", "enospc", "short"])])
    warm = r.random() < .25
    return {"pool": pool, "tasks": tasks, "faults": faults, "warm": warm,
            "sched": {"mode": "random", "seed": r.randint(0, 10 ** 9), "gap": r.choice([1, 2, 3, 8, 30, 200]), "first": r.randrange(nt),
                      "lines": r.random() < .5}}


def shrink(case):
    import copy
    from sim.core import default_shrink
    for c in default_shrink(case):
        yield c
    for t in range(len(case["tasks"])):
        if len(case["tasks"][t]) > 1:
            c = copy.deepcopy(case)
            c["tasks"][t].pop()
            yield c


def run(case, rec):
    root = os.path.join(os.getcwd(), "disk")
    d = os.path.join(root, "cache")
    os.makedirs(d)
    pool, refs = case["pool"], {}
    for t in case["tasks"]:
        for j in t:
            if j["job"] not in refs:
                refs[j["job"]] = jobs.reference(pool[j["job"]])
    disk = SimDisk(root)
    results = []

    def body(t, todo):
        def f():
            sm = None
            for j in todo:
                if not (j["again"] and sm is not None and last == j["job"]):
                    sm = jobs.make(pool[j["job"]], data_dir=d)
                last = j["job"]
                n0 = sum(disk.fired.values())
                o = U.outcome(sm.train)
                # answers are taken at once: the later life of this task must not matter
                results.append((t, j["job"], o, sm, jobs.check(sm, o, refs[j["job"]], pool[j["job"]]) if o.ok else None))
        return f

    if case["warm"]:
        seams.DISK = disk
        try:
            U.train(jobs.make(pool[0], data_dir=d), 7)
        finally:
            seams.DISK = None
    s = Sched(case["sched"])
    disk.yield_point = s.yield_point
    disk.who = lambda: s.cur.no if s.cur is not None else None
    disk.plan = {disk.nops + n: k for n, k in case["faults"]}
    tasks = [s.spawn(body(t, todo), np_seed=7) for t, todo in enumerate(case["tasks"])]
    seams.DISK = disk
    order = len(disk.log)
    try:
        s.run(lines=case["sched"].get("lines", True))
    finally:
        seams.DISK = None
    disk.yield_point = disk.who = None
    disk.plan = {}
    for k, v in disk.fired.items():
        rec.fault(k, v)
    rec.op("trainings", len(results))
    rec.probe("switches", len(s.switches))
    if s.switches:
        rec.nontrivial = True
    rec.state([x[0] for x in disk.log[order:]], [b for a, b in s.switches][:12])
    rec.refined = s.refine(case)
    hurt = any(not k.startswith("kill") for k in disk.fired)
    for t in tasks:
        rec.log("task", t.no, type(t.error).__name__, len(disk.log), s.switches[:40])
        if t.error is not None and not (isinstance(t.error, SimCrash) and t.no in disk.dead):
            return bad("trainer-died", "task %d: %s: %s" % (t.no, type(t.error).__name__, t.error), err=type(t.error).__name__)
    for t, j, o, sm, why in results:
        rec.log(t, j, o.ok, o.err)
        if t in disk.dead:
            continue
        if not o.ok and hurt:
            why = None
        elif not o.ok:
            why = jobs.check(sm, o, refs[j], pool[j])
        if why:
            return bad("trainers-disturb", "task %d, job %d (%s): %s; switches %r" % (t, j, pool[j]["spec"]["model"], why, s.switches[:30]),
                       model=pool[j]["spec"]["model"])
    # the directory they leave behind
    for j in refs:
        seams.DISK = disk
        try:
            sm = jobs.make(pool[j], data_dir=d)
            o = U.train(sm, 7)
        finally:
            seams.DISK = None
        why = jobs.check(sm, o, refs[j], pool[j])
        if why:
            return bad("later-training-wrong", "job %d (%s) afterwards: %s" % (j, pool[j]["spec"]["model"], why), model=pool[j]["spec"]["model"])
    return None
