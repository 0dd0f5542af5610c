"""A cache directory never changes what a trained model predicts."""
import os
from sim import jobs, seams, universe as U
from sim.core import bad
from sim.disk import SimDisk

LEVEL = "exploration"
N = {"quick": 400, "thorough": 14000}
RULE = ("a case is a history of 3-9 trainings of related jobs (same job again, one option / bound / datum / model class "
        "changed) sharing one simulated cache directory; instances are new, retrained or reset; each is compared with the "
        "same training without a cache directory; non-trivial when at least one training found a stored result")
REAL = ["smt.surrogate_models RBF, IDW, LS, QP, RMTC, RMTB", "smt.utils.caching", "compiled extensions"]
STUB = ["file system behind builtins.open/os.* (simulated disk over a scratch directory)", "numpy global random state (reseeded)"]
STATES = "hash of (model, kinds of file operations of the training, step kind)"
ASSUME = ["the no-cache training of the same code is the reference"]


def gen(r, i, tier):
    base = jobs.gen_base(r)
    pool = [base]
    for _ in range(r.randint(1, 4)):
        pool.append(jobs.related(r, r.choice(pool)))
    ops = []
    for k in range(r.randint(3, 9)):
        ops.append({"op": r.choice(["new", "new", "new", "again", "newdir"]), "job": r.randrange(len(pool)),
                    "dir": r.choice([0, 0, 0, 1])})
    return {"pool": pool, "ops": ops}


def shrink(case):
    from sim.core import default_shrink
    for c in default_shrink(case):
        if c["ops"]:
            yield c


def run(case, rec):
    root = os.path.join(os.getcwd(), "disk")
    os.mkdir(root)
    dirs = [os.path.join(root, "a"), os.path.join(root, "b")]
    for d in dirs:
        os.mkdir(d)
    pool = case["pool"]
    refs = {}
    disk = SimDisk(root)
    last = {}
    for n, op in enumerate(case["ops"]):
        j = pool[op["job"]]
        if op["job"] not in refs:
            refs[op["job"]] = jobs.reference(j)
        d = dirs[op["dir"]]
        k0 = len(disk.log)
        seams.DISK = disk
        try:
            if op["op"] == "again" and op["job"] in last:
                sm = last[op["job"]]
            else:
                sm = jobs.make(j, data_dir=d)
            o = U.train(sm, 7)
            last[op["job"]] = sm
        finally:
            seams.DISK = None
        kinds = [x[0] for x in disk.log[k0:]]
        hit = "read" in kinds and "write" not in kinds
        rec.op(op["op"])
        if hit:
            rec.probe("stored result found")
            rec.nontrivial = True
        if "read" in kinds and "write" in kinds:
            rec.probe("partly found")
        rec.state(j["spec"]["model"], "".join(sorted(set(kinds))), op["op"])
        rec.log(op["op"], op["job"], o.ok, o.err, len(kinds), sorted(set(kinds)))
        why = jobs.check(sm, o, refs[op["job"]], j)
        if why:
            return bad("cache-changes-model", "step %d, job %d (%s), stored result %s: %s" % (n, op["job"], j["spec"]["model"],
                       "found" if hit else "not found", why), model=j["spec"]["model"])
        if o.ok:
            for q, a in refs[op["job"]][1].ans.items():
                rec.log(q[0], a.v if a.ok else a.err)
    return None
