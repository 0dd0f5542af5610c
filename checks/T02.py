"""Instances that share no object never influence one another."""
import copy
import numpy as np
from sim import universe as U, comp, opt, alone
from sim.core import bad
from sim.sched import Sched

TECH = "seeded interleavings, step by step in one thread or line by line in several, of whole lifecycles of independent instances; each compared with the same lifecycle alone in a pristine process"
LEVEL = "exploration"
N = {"quick": 400, "thorough": 14000}
RULE = ("a case draws 2-4 lifecycles (create, configure, feed, train, query, reconfigure, retrain; samplers; optimizers), often of the same class with other "
        "options and data, and an interleaving of their steps; non-trivial when a lifecycle was suspended for another one")
REAL = ["all of smt.surrogate_models, smt.applications, smt.sampling_methods, compiled extensions"]
STUB = ["thread scheduling (baton scheduler)", "process-wide numpy random state (per lifecycle)"]
STATES = "hash of (classes, interleaving of steps)"
ASSUME = ["the process-wide random state is a shared object of its own: every lifecycle is given its own copy", "samplers are seeded"]


def gen_job(r, like=None):
    k = r.choice(["sm"] * 6 + ["comp", "sampler", "ego", "mix"]) if like is None else like["k"]
    j = {"k": k, "np": r.randint(0, 9), "data": r.randint(0, 9)}
    if k == "sm":
        if like is not None and r.random() < .4:
            j["spec"] = copy.deepcopy(like["spec"])       # the same configuration, other data
        else:
            j["spec"] = U.gen_spec(r, [like["spec"]["model"]] if like else U.SURROGATES)
        j["set"] = r.choice(["init", "init", "setitem", "update"])
        j["life"] = [r.choice(["ask", "ask", "train", "option", "feed", "bad"]) for _ in range(r.randint(1, 5))]
        alt = U.gen_spec(r, [j["spec"]["model"]], nx=j["spec"]["nx"])["opts"]
        j["alt"] = {a: v for a, v in alt.items() if a not in ("xlimits", "num_ctrl_pts", "num_elements", "use_het_noise", "eval_noise", "extra_points", "n_comp", "theta0", "order", "poly")}
    elif k == "comp":
        j["spec"] = comp.gen_spec(r, [like["spec"]["model"]] if like else ("MOE", "VFM"))
    elif k == "sampler":
        s = comp.gen_sampling(r, ("LHS", "LHS", "FullFactorial"))
        if s["method"] == "LHS":
            s["opts"]["random_state"] = r.randint(0, 5)
        if s["opts"].get("criterion") == "ese":
            s["nt"] = min(5, s["nt"])
        j["spec"] = s
        j["nts"] = [s["nt"], 2, 3][: r.randint(1, 3)]
        if s["opts"].get("criterion") in ("corr", "correlation"):
            j["nts"] = [8, 9]
    elif k == "ego":
        e = opt.gen_spec(r)
        e["opts"]["n_iter"] = 1
        e["opts"]["n_start"] = min(2, e["opts"]["n_start"])
        e["opts"].setdefault("random_state", 3)
        j["spec"] = e
    else:
        xt, xl = opt.gen_types(r)
        j["spec"] = {"model": "mix", "xt": xt, "xl": xl}
        j["inner"] = r.choice(["KRG", "LS", "RBF", "KPLS"])
        j["folded"] = r.random() < .5
    return j


def gen(r, i, tier):
    jobs = [gen_job(r)]
    for _ in range(r.choice([1, 1, 2, 3])):
        jobs.append(gen_job(r, r.choice(jobs) if r.random() < .6 else None))
    c = {"jobs": jobs, "mode": r.choice(["steps", "steps", "threads"])}
    c["ops"] = [r.randrange(len(jobs)) for _ in range(6 * len(jobs))]
    c["sched"] = {"mode": "random", "seed": r.randint(0, 10 ** 9), "gap": r.choice([3, 15, 60, 300]), "first": r.randrange(len(jobs))}
    return c


def shrink(case):
    from sim.core import default_shrink
    for c in default_shrink(case):
        yield c
    for k, j in enumerate(case["jobs"]):
        for i in range(len(j.get("life", ()))):
            c = copy.deepcopy(case)
            del c["jobs"][k]["life"][i]
            yield c
    if len(case["jobs"]) > 2:
        for k in range(len(case["jobs"])):
            c = copy.deepcopy(case)
            del c["jobs"][k]
            c["ops"] = [o - (o > k) for o in c["ops"] if o != k]
            c["sched"]["first"] = 0
            if c["sched"]["mode"] == "random":
                yield c


def val(o):
    """What is compared: (fine, value or error)."""
    return (o.ok, o.v if o.ok else o.err)


def life(j, extra={}, box=None):
    """The lifecycle of a job as a generator of labelled outcomes; extra: further options, box: gets the instance."""
    spec = j["spec"]
    box = {} if box is None else box
    if j["k"] == "sm":
        if j["set"] == "init":
            m = box["m"] = U.build(spec, **extra)
        else:
            m = box["m"] = U.build(dict(spec, opts={k: v for k, v in spec["opts"].items() if k == "xlimits"}), **extra)
            yield "built", None
            o = {k: U.decode(v) for k, v in spec["opts"].items()}
            if j["set"] == "update":
                m.options.update(o)
            else:
                for k, v in o.items():
                    m.options[k] = v
                    yield "set", None
        yield "built", None
        data = U.training(spec, j["data"])
        for d in data:
            U.feed(m, [d])
            yield "fed", None
        yield "trained", val(U.outcome(m.train))
        for s in ["ask"] + j["life"]:
            if s == "ask":
                for q in U.requests(spec):
                    yield q, val(U.outcome(U.ask, m, q, U.queries(spec, j["data"], 1 if q == "e" else 3)))
            elif s == "train":
                yield "trained", val(U.outcome(m.train))
            elif s == "feed":
                U.feed(m, U.training(spec, j["data"] + 1))
                yield "fed", None
            elif s == "option" and j["alt"]:
                for k, v in j["alt"].items():
                    yield "set", val(U.outcome(lambda: m.options.update({k: U.decode(v)})))
            else:
                yield "bad", val(U.outcome(m.predict_values, np.zeros((2, spec["nx"] + 1))))[0]
        yield "options", {k: copy.deepcopy(m.options[k]) for k in sorted(m.options._dict) if k not in ("data_dir",) and not callable(m.options[k])}
    elif j["k"] == "comp":
        a = comp.build(spec, j["data"], dict(comp.options(spec, j["data"]), **extra))
        box["m"] = a
        yield "built", None
        yield "trained", val(comp.train(a, spec))
        for q in comp.requests(spec):
            yield q, val(U.outcome(U.ask, a, q, U.queries(spec, 0, 3)))
    elif j["k"] == "sampler":
        g = comp.generator(spec)
        yield "built", None
        for n in j["nts"]:
            yield "sample", val(U.outcome(g, n))
    elif j["k"] == "ego":
        e = opt.build(spec, **extra)
        yield "built", None
        f = opt.Objective(spec)
        try:
            o = (True, [np.array(v, float) for v in e.optimize(f)])
        except Exception as x:
            o = (False, type(x).__name__)
        yield "optimized", o
        yield "evaluations", [list(map(float, a)) + [b] for a, b in f.log]
    else:
        from smt.applications.mixed_integer import MixedIntegerContext
        from smt.sampling_methods import LHS
        xt, xl = spec["xt"], spec["xl"]
        c = MixedIntegerContext(opt.types(xt), xl, work_in_folded_space=j["folded"])
        yield "built", None
        g = c.build_sampling_method(LHS, criterion="c", random_state=j["data"])
        x = g(12)
        yield "sample", x
        inner = U.classes()[j["inner"]](**dict({"print_global": False}, **extra), **({"nugget": 1e-6} if j["inner"] in ("KRG", "KPLS") else {}))
        w = box["m"] = c.build_surrogate_model(inner)
        yield "built", None
        x = np.unique(x, axis=0)
        w.set_training_values(x, np.cos(x.sum(axis=1, keepdims=True)))
        yield "fed", None
        yield "trained", val(U.outcome(w.train))
        yield "v", val(U.outcome(w.predict_values, g(3)))


def whole(j):
    np.random.seed(j["np"])
    return list(life(j))


def differs(a, b):
    """Why two labelled outcomes differ, or None."""
    if a[0] != b[0]:
        return "%s instead of %s" % (b[0], a[0])
    return deep(a[1], b[1])


def deep(x, y):
    if isinstance(x, dict) and isinstance(y, dict):
        if set(x) != set(y):
            return "keys %s" % sorted(set(x) ^ set(y))
        for k in x:
            d = deep(x[k], y[k])
            if d:
                return "%s: %s" % (k, d)
        return None
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        if len(x) != len(y):
            return "%d entries instead of %d" % (len(y), len(x))
        for p, q in zip(x, y):
            d = deep(p, q)
            if d:
                return d
        return None
    if isinstance(x, (np.ndarray, float, np.floating)) or isinstance(y, np.ndarray):
        try:
            same = U.close(x, y, 1e-8, 1e-300)
        except Exception:
            same = False
        return None if same else "%s instead of %s" % (U.short(np.asarray(y)), U.short(np.asarray(x)))
    if type(x).__module__.startswith("smt") or callable(x):
        return None if type(x) is type(y) else "%r instead of %r" % (type(y), type(x))
    return None if x == y else "%r instead of %r" % (y, x)


def run(case, rec):
    jobs = case["jobs"]
    want = [alone.alone(whole, j) for j in jobs]
    got = [[] for _ in jobs]
    rec.op("lifecycles", len(jobs))
    if case["mode"] == "threads":
        s = Sched(case["sched"])

        def body(k):
            def f():
                for o in life(jobs[k]):
                    got[k].append(o)
            return f
        for k, j in enumerate(jobs):
            s.spawn(body(k), np_seed=j["np"])
        s.run()
        rec.refined = s.refine(case)
        rec.nontrivial = bool(s.switches)
        rec.probe("switches", len(s.switches))
        rec.state([(j["k"], j["spec"].get("model")) for j in jobs], s.switches[:6])
        for t in s.tasks:
            if t.error is not None:
                return bad("thread-died", "lifecycle %d: %r" % (t.no, t.error), job=jobs[t.no]["spec"].get("model", jobs[t.no]["k"]))
        how = "%d switches" % len(s.switches)
    else:
        saved = np.random.get_state()
        lives = [life(j) for j in jobs]
        states = []
        for j in jobs:
            np.random.seed(j["np"])
            states.append(np.random.get_state())
        todo, order = list(case["ops"]), []
        done = [False] * len(jobs)
        last = None
        while not all(done):
            k = todo.pop(0) if todo else done.index(False)
            if k >= len(jobs) or done[k]:
                continue
            np.random.set_state(states[k])
            try:
                got[k].append(next(lives[k]))
            except StopIteration:
                done[k] = True
            states[k] = np.random.get_state()
            order.append(k)
            if last is not None and last != k and not done[last]:
                rec.nontrivial = True
            last = k
        np.random.set_state(saved)
        rec.state([(j["k"], j["spec"].get("model")) for j in jobs], order[:14])
        how = "order of steps %s" % order
    for k, j in enumerate(jobs):
        name = j["spec"].get("model", j["k"])
        if len(got[k]) != len(want[k]):
            return bad("not-alone", "lifecycle %d of %s: %d steps instead of %d" % (k, name, len(got[k]), len(want[k])), job=name)
        for n, (a, b) in enumerate(zip(want[k], got[k])):
            d = differs(a, b)
            rec.log(k, n, a[0])
            if d:
                return bad("not-alone", "lifecycle %d (%s), step %d %s: %s; %s" % (k, name, n, a[0], d, how), job=name)
    return None
