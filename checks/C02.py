"""Damaged or half-written cache files never yield a wrong model."""
import os, random
from sim import jobs, seams, universe as U
from sim.core import bad, default_shrink
from sim.disk import SimDisk, SimCrash, damage

LEVEL = "exploration"
N = {"quick": 680, "thorough": 25000}
RULE = ("a case is a history of trainings into one simulated cache directory with crashes at a chosen file operation "
        "(contents and names surviving per the durability model), media damage of stored files (bit flips, truncation, zeroed "
        "blocks, garbage, emptied, exchanged, removed files) and read errors in between; every completed training is compared "
        "with one without a cache directory; non-trivial when a crash, damage or read error took effect")
REAL = ["smt.surrogate_models RBF, IDW, LS, QP, RMTC, RMTB", "smt.utils.caching", "compiled extensions"]
STUB = ["file system (simulated disk: durable and volatile contents, journalled names)", "numpy global random state"]
STATES = "hash of (model, fault kind, file operation hit or number of surviving files)"
ASSUME = ["durability model of sim/disk.py: names in journal order, unsynced contents survive fully, partly, zero-filled or not",
          "any single corruption of a stored file is detectable (the stored digest is not forged)"]

DAMAGE = ("truncate", "empty", "bitflip", "tailflip", "tailflip", "zero", "garbage", "append", "remove", "swap", "oldcopy")


def gen(r, i, tier):
    base = jobs.gen_base(r, 0)
    pool = [base]
    for _ in range(r.randint(0, 2)):
        pool.append(jobs.related(r, r.choice(pool)))
    ops = []
    for k in range(r.randint(2, 6)):
        u = r.random()
        j = r.randrange(len(pool))
        if u < .4:
            ops.append({"op": "crash", "job": j, "at": r.random(), "torn": r.random() < .3, "seed": r.randint(0, 10 ** 6)})
        elif u < .7:
            ops.append({"op": "train", "job": j})
            ops.append({"op": "damage", "kind": r.choice(DAMAGE), "file": r.random(), "seed": r.randint(0, 10 ** 6)})
        elif u < .85:
            ops.append({"op": "readerr", "job": j, "kind": r.choice(["eio", "eacces", "emfile", "enoent", "estale"]), "at": r.random()})
        elif u < .92:
            ops.append({"op": "powerloss", "seed": r.randint(0, 10 ** 6)})
        else:
            ops.append({"op": "train", "job": j})
        ops.append({"op": "train", "job": r.choice([j, j, r.randrange(len(pool))])})
    return {"pool": pool, "ops": ops}


def shrink(case):
    for c in default_shrink(case):
        if c["ops"]:
            yield c


def run(case, rec):
    root = os.path.join(os.getcwd(), "disk")
    d = os.path.join(root, "cache")
    os.makedirs(d)
    pool, refs = case["pool"], {}
    disk = SimDisk(root)
    length = {}
    history = []

    def ref(k):
        if k not in refs:
            refs[k] = jobs.reference(pool[k])
        return refs[k]

    def train(k):
        n0 = disk.nops
        seams.DISK = disk
        try:
            sm = jobs.make(pool[k], data_dir=d)
            o = U.train(sm, 7)
        finally:
            seams.DISK = None
        length[k] = max(length.get(k, 0), disk.nops - n0)
        return sm, o

    for n, op in enumerate(case["ops"]):
        kind = op["op"]
        rec.op(kind)
        if kind == "damage":
            fs = disk.files()
            if not fs:
                continue
            f = fs[int(op["file"] * len(fs))]
            g = fs[(int(op["file"] * len(fs)) + 1) % len(fs)]
            with open(f, "rb") as h:
                b = h.read()
            if op["kind"] == "remove":
                os.unlink(f)
            elif op["kind"] in ("swap", "oldcopy"):
                if g == f:
                    continue
                with open(g, "rb") as h:
                    c = h.read()
                with open(f, "wb") as h:
                    h.write(c)
                if op["kind"] == "swap":
                    with open(g, "wb") as h:
                        h.write(b)
            else:
                nb = damage(b, op["kind"], op["seed"])
                if nb == b:
                    continue
                with open(f, "wb") as h:
                    h.write(nb)
            disk._scan()
            rec.fault("damage:" + op["kind"])
            rec.log("damage", op["kind"], len(b), len(fs))
            rec.state(op["kind"], len(fs))
            continue
        if kind == "powerloss":
            img, kinds = disk.crash_image(op["seed"])
            disk.restart(img)
            rec.fault("power loss")
            rec.log("powerloss", sorted(kinds))
            continue
        k = op["job"]
        r = ref(k)
        model = pool[k]["spec"]["model"]
        if kind == "crash":
            # position among the file operations this training performs
            total = length.get(k) or probe_len(pool[k], root + "-probe")
            length[k] = total
            at = disk.nops + int(op["at"] * max(1, total))
            disk.plan = {at: "crash_torn" if op["torn"] else "crash"}
            try:
                sm, o = train(k)
                crashed = False
            except SimCrash:
                crashed = True
            if disk.crashed and not crashed:
                crashed = True     # torn write swallowed: the process is dead all the same
            disk.plan = {}
            if crashed:
                where = disk.log[-1][0] if disk.log else "-"
                img, kinds = disk.crash_image(op["seed"])
                disk.restart(img)
                rec.fault("crash:" + where)
                rec.state(model, "crash", where, len(img))
                rec.log("crash", where, sorted(kinds), len(img))
                continue
        elif kind == "readerr":
            total = max(1, length.get(k, 3))
            disk.plan = {disk.nops + int(op["at"] * total): op["kind"]}
            disk.kind_plan = {("open_r", disk.kcount.get("open_r", 0)): op["kind"]} if op["at"] < .5 else \
                {("read", disk.kcount.get("read", 0)): op["kind"]}
            disk.plan = {}
            f0 = sum(disk.fired.values())
            sm, o = train(k)
            disk.kind_plan = {}
            if sum(disk.fired.values()) > f0:
                rec.fault("read error:" + op["kind"])
        else:
            sm, o = train(k)
        rec.log(kind, k, o.ok, o.err)
        why = jobs.check(sm, o, r, pool[k])
        if why:
            return bad("damaged-cache-used", "step %d (%s), job %d (%s): %s" % (n, kind, k, model, why), model=model)
    return None


def probe_len(job, root):
    d = os.path.join(root, "cache")
    if not os.path.isdir(d):
        os.makedirs(d)
    p = SimDisk(root)
    seams.DISK = p
    try:
        U.train(jobs.make(job, data_dir=d), 7)
    finally:
        seams.DISK = None
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    return p.nops
