"""Seeded and deterministic sampling: same points for the same requests, isolated from all other random numbers."""
import copy, random
import numpy as np
from sim import universe as U, comp, opt
from sim.core import bad
from sim.sched import Sched

TECH = "seeded histories and thread interleavings of seeded samplers among other users of random numbers and failing requests; points compared with a fresh generator asked alone"
LEVEL = "exploration"
N = {"quick": 400, "thorough": 20000}
RULE = ("a case creates 1-3 seeded or deterministic samplers (plain or mixed-integer) and asks each for a sequence of point numbers, mixed with draws from and "
        "re-seedings of the process-wide generator, other samplers, surrogate trainings and rejected requests, in one thread or in several under a seeded "
        "scheduler; non-trivial when something else happened between two requests")
REAL = ["smt.sampling_methods, MixedIntegerSamplingMethod, pyDOE2"]
STUB = ["entropy of unseeded generators", "thread scheduling (baton scheduler)"]
STATES = "hash of (methods and criteria, kinds of disturbances, threads)"
ASSUME = ["seeded means an integer random_state; a RandomState object of its own is held to the same sequence in one thread"]

BAD = [-1, -7, 2.5, "three", None, [4], {"nt": 3}]


def gen_subject(r):
    s = comp.gen_sampling(r, ("LHS", "LHS", "LHS", "FullFactorial"))
    if s["method"] == "LHS":
        s["opts"]["random_state"] = r.choice([0, 1, 42, r.randint(0, 2 ** 31)])
        s["object"] = r.random() < .15
        if s["opts"]["criterion"] == "ese" and s["nx"] > 3:
            s["nx"] = 2
            s["lim"] = s["lim"][:2]
    if r.random() < .25:
        s["mix"] = list(opt.gen_types(r)) + [r.random() < .5]
        if s["method"] == "FullFactorial":
            s["opts"].pop("weights", None)
        if s["opts"].get("criterion") == "ese" and len(opt.unfolded(*s["mix"][:2])) > 4:
            s["opts"]["criterion"] = "cm"
        if s["opts"].get("criterion") in ("corr", "correlation") and len(opt.unfolded(*s["mix"][:2])) < 2:
            s["opts"]["criterion"] = "m"
    big = s["opts"].get("criterion") in ("ese", "correlation", "corr")
    s["nts"] = [r.choice([2, 3, 5, 8] if big else [2, 3, 4, 7, 12, 30]) for _ in range(r.choice([1, 2, 2, 3]))]
    return s


def gen(r, i, tier):
    subj = [gen_subject(r) for _ in range(r.choice([1, 2, 2, 3]))]
    if len(subj) > 1 and r.random() < .4:
        subj[1] = copy.deepcopy(subj[0])
        if r.random() < .5 and "random_state" in subj[1]["opts"]:
            subj[1]["opts"]["random_state"] += 1
    threads = r.random() < .35
    ops = []
    for k, s in enumerate(subj):
        ops += [{"op": "ask", "s": k, "n": j} for j in range(len(s["nts"]))]
    if not threads:
        for _ in range(r.randint(1, 6)):
            ops.append(noise(r, len(subj)))
        r.shuffle(ops)
        # the requests of one sampler keep their order
        for k in range(len(subj)):
            at = [i for i, o in enumerate(ops) if o["op"] == "ask" and o["s"] == k]
            for j, i2 in enumerate(at):
                ops[i2] = {"op": "ask", "s": k, "n": j}
    else:
        ops += [noise(r, len(subj), True) for _ in range(r.randint(0, 4))]
    c = {"subjects": subj, "ops": ops, "np": r.randint(0, 9), "late": r.random() < .3}
    if threads:
        c["sched"] = {"mode": "random", "seed": r.randint(0, 10 ** 9), "gap": r.choice([2, 7, 20, 60]), "first": r.randrange(3)}
    return c


def noise(r, ns, threads=False):
    k = r.choice(["global", "seed", "other", "other", "python", "bad", "bad", "train", "repeat"])
    if threads and k in ("bad", "repeat"):
        k = "other"
    o = {"op": k}
    if k == "global":
        o["fn"] = r.choice(["rand", "randn", "permutation", "shuffle", "randint"])
    elif k == "seed":
        o["v"] = r.choice([0, 1, 42])
    elif k == "other":
        o["spec"] = comp.gen_sampling(r)
        if o["spec"]["opts"].get("criterion") == "ese":
            o["spec"]["nt"] = min(o["spec"]["nt"], 5)
        if o["spec"]["method"] == "NestedLHS":
            o["spec"]["nlevel"], o["spec"]["nt"] = min(2, o["spec"]["nlevel"]), 2
    elif k == "python":
        o["v"] = r.randint(0, 9)
    elif k in ("bad", "repeat"):
        o["s"] = r.randrange(ns)
        o["nt"] = r.randrange(len(BAD))
    elif k == "train":
        o["spec"] = U.gen_spec(r, ["LS", "KPLS", "RBF", "GENN"])
    return o


def build(s):
    if s.get("mix"):
        from smt.applications.mixed_integer import MixedIntegerContext, MixedIntegerSamplingMethod
        from smt.sampling_methods import LHS, FullFactorial
        xt, xl, folded = s["mix"]
        o = {k: U.decode(v) for k, v in s["opts"].items()}
        return MixedIntegerSamplingMethod(opt.types(xt), xl, {"LHS": LHS, "FullFactorial": FullFactorial}[s["method"]],
                                          output_in_folded_space=folded, **o)
    if s.get("object"):
        return comp.generator(dict(s, opts=dict(s["opts"], random_state=None)), random_state=np.random.RandomState(s["opts"]["random_state"] % 2 ** 32))
    return comp.generator(s)


def disturb(o, gens):
    k = o["op"]
    if k == "global":
        f = {"rand": lambda: np.random.rand(3), "randn": lambda: np.random.randn(2), "permutation": lambda: np.random.permutation(5),
             "shuffle": lambda: np.random.shuffle(list(range(4))), "randint": lambda: np.random.randint(9)}[o["fn"]]
        f()
    elif k == "seed":
        np.random.seed(o["v"])
    elif k == "python":
        random.seed(o["v"])
        random.random()
    elif k == "other":
        U.outcome(comp.sample, o["spec"])
    elif k == "train":
        m = U.build(o["spec"])
        U.feed(m, U.training(o["spec"], 1))
        U.outcome(m.train)
    elif k == "bad":
        return U.outcome(gens[o["s"]], BAD[o["nt"]])


def state():
    s = np.random.get_state()
    return s[0], s[1].tobytes(), s[2], s[3], s[4], random.getstate()


def run(case, rec):
    subj = case["subjects"]
    np.random.seed(case["np"])
    random.seed(5)
    want = []
    for s in subj:
        st = state()
        g = build(s)
        want.append([U.outcome(g, n) for n in s["nts"]])
        if state() != st:
            return bad("global-advanced", "%s %s alone" % (s["method"], s["opts"]), method=s["method"])
    np.random.seed(case["np"] + 100)
    gens = {}

    def sampler(k):
        if k not in gens:
            gens[k] = build(subj[k])
        return gens[k]
    if not case["late"]:
        for k in range(len(subj)):
            sampler(k)

    def judge(k, j, o, how):
        w = want[k][j]
        rec.log(k, j, o.v if o.ok else o.err)
        if o.ok != w.ok or (o.ok and not np.array_equal(np.asarray(o.v), np.asarray(w.v))) or (not o.ok and o.err != w.err):
            return bad("not-reproduced", "%s %s, request %d of %r points: %r, alone %r (%s)" % (
                subj[k]["method"], subj[k]["opts"], j, subj[k]["nts"][j], o, w, how), method=subj[k]["method"], mix=bool(subj[k].get("mix")))
    kinds = sorted({o["op"] for o in case["ops"]})
    rec.state([(s["method"], s["opts"].get("criterion")) for s in subj], kinds, "sched" in case)
    if "sched" in case:
        sch = Sched(case["sched"], rng_states=False)
        got = {}

        def body(k):
            def f():
                g = sampler(k)
                for j, n in enumerate(subj[k]["nts"]):
                    got[k, j] = U.outcome(g, n)
            return f
        others = [o for o in case["ops"] if o["op"] != "ask"]
        before = state()
        for k in range(len(subj)):
            if not subj[k].get("object"):
                sch.spawn(body(k))
            else:
                body(k)()
        if others:
            sch.spawn(lambda: [disturb(o, None) for o in others] and None)
        # numpy's state is put back by the scheduler: looked at before it is
        after = []
        if not others:
            real = sch._finished

            def fin(me):
                after.append(state())
                real(me)
            sch._finished = fin
        sch.run()
        rec.probe("switches", len(sch.switches))
        rec.nontrivial = bool(sch.switches)
        rec.refined = sch.refine(case)
        for t in sch.tasks:
            if t.error is not None:
                return bad("thread-died", repr(t.error))
        for (k, j), o in sorted(got.items()):
            v = judge(k, j, o, "%d switches" % len(sch.switches))
            if v:
                return v
        if after and after[-1] != before:
            return bad("global-advanced", "by %s in threads" % [s["method"] for s in subj], method=subj[0]["method"])
        return None
    asked = {}
    for o in case["ops"]:
        if o["op"] == "ask":
            k = o["s"]
            j = asked.get(k, 0)
            if k >= len(subj) or j >= len(subj[k]["nts"]):
                continue
            asked[k] = j + 1
            if subj[k].get("object") and k not in gens:
                sampler(k)
            g = sampler(k)
            st = state()
            out = U.outcome(g, subj[k]["nts"][j])
            if state() != st:
                return bad("global-advanced", "%s %s" % (subj[k]["method"], subj[k]["opts"]), method=subj[k]["method"])
            v = judge(k, j, out, "after %s" % kinds)
            if v:
                return v
            rec.op("request")
        else:
            if o["op"] in ("bad", "repeat"):
                if o["s"] >= len(subj) or subj[o["s"]].get("object"):
                    continue
                sampler(o["s"])
                if o["op"] == "repeat":
                    # a second sampler with the same state is asked in between, not this one: the sequence of requests stays
                    U.outcome(build(subj[o["s"]]), 3)
                    rec.nontrivial = True
                    continue
            r = disturb(o, gens)
            if o["op"] == "bad":
                if r.ok:
                    return None          # not rejected: the sequence of requests is another one
                rec.fault("rejected request")
            rec.nontrivial = True
    return None
