"""Disk errors while caching never lose or falsify a training."""
import os
from sim import jobs, seams, universe as U
from sim.core import bad, default_shrink
from sim.disk import SimDisk

LEVEL = "exploration"
N = {"quick": 500, "thorough": 25000}
RULE = ("a case is a history of trainings into one simulated cache directory; each may suffer one error at a chosen file "
        "operation, errors on all operations of a kind (full or read-only disk), short writes or a missing directory; a "
        "training that returns must equal one without cache, one that raises must leave the instance trainable, and later "
        "trainings must be right; non-trivial when an error took effect")
REAL = ["smt.surrogate_models RBF, IDW, LS, QP, RMTC, RMTB", "smt.utils.caching", "compiled extensions"]
STUB = ["file system (simulated disk)", "numpy global random state"]
STATES = "hash of (model, fault, file operation hit, outcome)"
ASSUME = ["the no-cache training of the same code is the reference"]

ERRS = ("eio", "enospc", "eacces", "erofs", "emfile", "enoent")
WOPS = ("open_w", "write", "fsync", "rename")


def gen(r, i, tier):
    base = jobs.gen_base(r, 0)
    pool = [base]
    for _ in range(r.randint(0, 2)):
        pool.append(jobs.related(r, r.choice(pool)))
    ops = []
    for k in range(r.randint(1, 4)):
        j = r.randrange(len(pool))
        u = r.random()
        if u < .35:
            f = {"how": "nth", "at": r.random(), "kind": r.choice(ERRS + ("short",))}
        elif u < .65:
            f = {"how": "op", "o": r.choice(WOPS), "kind": r.choice(ERRS)}
        elif u < .75:
            f = {"how": "short", "k": r.randint(0, 2)}
        elif u < .85:
            f = {"how": "nodir"}
        elif u < .93:
            f = {"how": "allwrites", "kind": r.choice(["enospc", "erofs", "eio"])}
        else:
            f = {"how": "all", "kind": "eio"}
        ops.append({"op": "train", "job": j, "fault": f})
        if r.random() < .6:
            ops.append({"op": "again", "job": j, "fault": None})
        if r.random() < .3:
            ops.append({"op": "again", "job": j, "fault": {"how": "op", "o": r.choice(WOPS), "kind": r.choice(ERRS)}})
            ops.append({"op": "again", "job": j, "fault": None})
        if r.random() < .35:
            # the same instance with other data
            ops.append({"op": "again", "job": j, "fault": None, "data": r.randint(10, 19)})
        ops.append({"op": "train", "job": j, "fault": None})
    return {"pool": pool, "ops": ops}


def shrink(case):
    for c in default_shrink(case):
        if c["ops"]:
            yield c


def run(case, rec):
    root = os.path.join(os.getcwd(), "disk")
    d = os.path.join(root, "cache")
    os.makedirs(d)
    pool, refs, last, force = case["pool"], {}, {}, {}
    disk = SimDisk(root)
    length = {}
    for n, op in enumerate(case["ops"]):
        k = op["job"]
        fresh = op["op"] != "again" or k not in last
        if fresh:
            force[k] = pool[k]
        if op.get("data") is not None:
            force[k] = dict(pool[k], data=op["data"], tweak=None)
        job = force[k]
        ref = (k, job["data"] if job is not pool[k] else None)
        if ref not in refs:
            refs[ref] = jobs.reference(job)
        model = pool[k]["spec"]["model"]
        f = op["fault"]
        dd = d
        disk.plan, disk.kind_plan = {}, {}
        if f:
            kc = disk.kcount
            if f["how"] == "nth":
                disk.plan = {disk.nops + int(f["at"] * max(6, length.get(k, 0))): f["kind"]}
            elif f["how"] == "op":
                disk.kind_plan = {(f["o"], kc.get(f["o"], 0)): f["kind"]}
            elif f["how"] == "short":
                disk.kind_plan = {("write", kc.get("write", 0) + f["k"]): "short"}
            elif f["how"] == "nodir":
                dd = os.path.join(root, "missing")
            elif f["how"] == "allwrites":
                for w in WOPS:
                    for q in range(60):
                        disk.kind_plan[(w, kc.get(w, 0) + q)] = f["kind"]
            elif f["how"] == "all":
                for q in range(200):
                    disk.plan[disk.nops + q] = f["kind"]
        f0 = dict(disk.fired)
        n0 = disk.nops
        seams.DISK = disk
        try:
            if fresh:
                sm = jobs.make(job, data_dir=dd)
            else:
                sm = last[k]
                if op.get("data") is not None:
                    U.feed(sm, jobs.data(job))
            o = U.train(sm, 7)
            last[k] = sm
        finally:
            seams.DISK = None
            disk.plan, disk.kind_plan = {}, {}
        length[k] = max(length.get(k, 0), disk.nops - n0)
        fired = {a: b - f0.get(a, 0) for a, b in disk.fired.items() if b > f0.get(a, 0)}
        for a, b in fired.items():
            rec.fault(a, b)
        if f and f["how"] == "nodir":
            rec.fault("missing directory")
            fired = {"missing": 1}
        hurt = bool(fired) or sm.options["data_dir"] != d
        rec.op(op["op"])
        rec.state(model, sorted(fired), o.ok)
        rec.log(op["op"], k, o.ok, o.err, sorted(fired))
        if not o.ok and hurt:
            continue
        why = jobs.check(sm, o, refs[ref], job)
        if why:
            return bad("disk-error-damage", "step %d (%s, fault %r, took effect %r), job %d (%s): %s" % (
                n, op["op"], f, fired, k, model, why), model=model)
    return None
