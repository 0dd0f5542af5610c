"""What a test problem answers depends on the point, the derivative index and its options alone."""
import copy
import numpy as np
from sim import boot, inject, universe as U
from sim.alone import alone
from sim.core import bad
from sim.sched import Sched

TECH = "seeded histories of evaluations, rejected and interrupted ones, and seeded interleavings of threads over shared problems; reference: fresh problems in a pristine process, one point at a time"
LEVEL = "exploration"
N = {"quick": 900, "thorough": 20000}
RULE = ("a case makes 1-3 test problems (reduced ones may share their base) and evaluates values and derivatives of them in turn, with rejected and interrupted "
        "evaluations, overwritten inputs and results and all memory layouts between, then from 2-3 threads; non-trivial when two evaluations of one problem ran")
REAL = ["all of smt.problems, smt.utils.options_dictionary, smt.utils.checks"]
STUB = ["thread scheduling (baton scheduler)"]
STATES = "hash of (problem, derivative index, layout, what came before)"
ASSUME = ["switches happen between lines of SMT code and never inside a compiled routine, as the interpreter lock makes it",
          "rows of one evaluation may differ from single-point evaluations by rounding"]
KINDS = ["Branin", "CantileverBeam", "Sphere", "ReducedProblem", "RobotArm", "Rosenbrock", "TensorProduct", "TorsionVibration", "WaterFlow",
         "WaterFlowLFidelity", "WeldedBeam", "WingWeight", "NdimCantileverBeam", "NdimRobotArm", "NdimRosenbrock", "NdimStepFunction", "LpNorm"]
LAYOUTS = ["c", "c", "f", "strided", "readonly", "reversed", "flat", "complex"]


def gen_problem(r, kind=None):
    k = kind or r.choice(KINDS)
    o = {}
    if k == "CantileverBeam":
        o = {"ndim": r.choice([3, 3, 6, 9]), "P": r.choice([50e3, 1e4]), "E": r.choice([200e9, 70e9])}
    elif k == "RobotArm":
        o = {"ndim": r.choice([2, 4, 6])}
    elif k in ("Sphere", "LpNorm"):
        o = {"ndim": r.choice([1, 2, 3])}
        if k == "LpNorm":
            o["order"] = r.choice([1, 2, 3])
    elif k == "Rosenbrock":
        o = {"ndim": r.choice([2, 3, 4])}
    elif k == "TensorProduct":
        o = {"ndim": r.choice([1, 2, 3]), "func": r.choice(["cos", "exp", "tanh", "gaussian"]), "width": r.choice([1.0, .5, 2.0])}
    elif k in ("TorsionVibration", "WaterFlow", "WaterFlowLFidelity", "WeldedBeam", "WingWeight"):
        o = {"use_FD": r.random() < .3}
        if k != "TorsionVibration":
            o["ndim"] = {"WaterFlow": 8, "WaterFlowLFidelity": 8, "WeldedBeam": 3, "WingWeight": 10}[k]
    elif k == "NdimStepFunction":
        return {"kind": k, "opts": {"ndim": r.choice([1, 2, 3]), "width": r.choice([10.0, 2.0])}}
    elif k.startswith("Ndim"):
        return {"kind": k, "opts": {"ndim": r.choice([1, 2, 3]), "w": r.choice([.2, .5])}}
    elif k == "ReducedProblem":
        base = gen_problem(r, r.choice(["CantileverBeam", "RobotArm", "Rosenbrock", "TensorProduct", "WingWeight", "WaterFlow"]))
        n = base["opts"]["ndim"]
        return {"kind": k, "base": base, "dims": r.randint(1, n) if r.random() < .4 else r.sample(range(n), r.randint(1, min(n, 4))),
                "w": r.choice([.2, .5, .8])}
    if r.random() < .15:
        o["return_complex"] = True
    return {"kind": k, "opts": o}


def evaluation(r, np_):
    return {"do": "eval", "p": r.randrange(np_), "kx": r.random() if r.random() < .6 else None, "rows": [r.randint(0, 4) for _ in range(r.choice([1, 1, 2, 4, 7]))],
            "lay": r.choice(LAYOUTS), "smash": r.random() < .4}


def gen(r, i, tier):
    probs = [gen_problem(r) for _ in range(r.choice([1, 1, 2, 2]))]
    if r.random() < .25:
        probs.append(dict(gen_problem(r, probs[0]["kind"])))
    if probs[0]["kind"] == "ReducedProblem" and r.random() < .6:
        q = copy.deepcopy(probs[0])
        q["w"], q["share"] = r.choice([.3, .6]), 0
        n = q["base"]["opts"]["ndim"]
        q["dims"] = r.sample(range(n), r.randint(1, min(n, 3)))
        probs.append(q)
    ops = []
    for _ in range(r.randint(2, 7)):
        o = evaluation(r, len(probs))
        x = r.random()
        if x < .12:
            o["do"] = r.choice(["wide", "bad-kx", "list", "negative"])
        elif x < .3:
            o.update(do="interrupt", a=r.random(), b=r.random(), exc=r.choice(["kbd", "mem"]))
        elif x < .36:
            o["do"] = "copy"
        ops.append(o)
    case = {"probs": probs, "ops": ops, "tasks": [], "far": r.random() < .3}
    if r.random() < .6:
        nt = r.choice([2, 2, 3])
        case["tasks"] = [[evaluation(r, len(probs)) for _ in range(r.choice([1, 2, 2]))] for _ in range(nt)]
        case["sched"] = {"mode": "random", "seed": r.randint(0, 10 ** 9), "gap": r.choice([1, 2, 5, 13]), "first": r.randrange(nt)}
    return case


def shrink(case):
    from sim.core import default_shrink
    for c in default_shrink(case):
        yield c
    if case["tasks"]:
        c = copy.deepcopy(case)
        c["tasks"] = []
        yield c
    for o in range(len(case["ops"])):
        if len(case["ops"][o]["rows"]) > 1:
            c = copy.deepcopy(case)
            c["ops"][o]["rows"] = c["ops"][o]["rows"][:1]
            yield c


def make(spec, made=()):
    from smt import problems as P
    k = spec["kind"]
    if k == "ReducedProblem":
        if "share" in spec and made:
            base = made[spec["share"]].problem
        else:
            base = make(spec["base"])
        return P.ReducedProblem(base, spec["dims"], w=spec["w"])
    cls = getattr(P, k, None)
    if cls is None:
        from smt.problems.lp_norm import LpNorm as cls
    return cls(**spec["opts"])


def pool(prob, no, far):
    import random
    r = random.Random("p01/%d" % no)
    lim = np.array(prob.xlimits, float)
    x = np.array([[r.random() for _ in lim] for _ in range(5)])
    if far:
        x[4] = 1.1
    return lim[:, 0] + x * (lim[:, 1] - lim[:, 0])


def reference(spec, no, far):
    """Value and every derivative at every point of the pool, each from a problem of its own."""
    boot.load()
    x = pool(make(spec), no, far)
    out = {}
    for kx in [None] + list(range(x.shape[1])):
        v = [U.outcome(lambda: np.array(make(spec)(x[j:j + 1].copy(), kx))) for j in range(len(x))]
        out[kx] = [(o.ok, o.v, o.err) for o in v]
    return x, out


def array(x, lay):
    if lay == "f":
        return np.asfortranarray(x)
    if lay == "strided":
        big = np.full((2 * len(x), x.shape[1] + 2), 7.5)
        big[::2, 1:-1] = x
        return big[::2, 1:-1]
    if lay == "reversed":
        return x[::-1].copy()[::-1]
    if lay == "readonly":
        y = x.copy()
        y.flags.writeable = False
        return y
    if lay == "flat" and x.shape[1] == 1:
        return x[:, 0].copy()
    if lay == "complex":
        return x.astype(complex)
    return x.copy()


def run(case, rec):
    boot.load()
    refs = [alone(reference, s, j, case["far"]) for j, s in enumerate(case["probs"])]
    probs = []
    for s in case["probs"]:
        probs.append(make(s, probs))
    made = [copy.deepcopy(p.xlimits) for p in probs]
    seen = []

    def kx_of(o):
        n = refs[o["p"]][0].shape[1]
        return None if o["kx"] is None else int(o["kx"] * n)

    def judge(o, y, where):
        s = case["probs"][o["p"]]
        x, ref = refs[o["p"]]
        kx = kx_of(o)
        key = {"problem": s["kind"], "kx": "value" if kx is None else "derivative"}
        w = [ref[kx][j] for j in o["rows"]]
        if not all(a[0] for a in w):
            if y.ok and not any(a[0] for a in w):
                return bad("accepted", "%s: %r after %r; at first: %s" % (s, y, where, w[0][2]), **key)
            return None
        if not y.ok:
            return bad("evaluation-failed", "%s kx %r rows %r layout %s: %s after %r; at first: %r" % (s, kx, o["rows"], o["lay"], y.err, where, [a[1] for a in w]), **key)
        g = np.asarray(y.v)
        v = np.concatenate([np.asarray(a[1]) for a in w])
        if g.shape != (len(o["rows"]), 1):
            return bad("shape", "%s: %r for %d points" % (s, g.shape, len(o["rows"])), **key)
        if np.iscomplexobj(g) != np.iscomplexobj(v):
            return bad("type", "%s: %s; at first %s" % (s, g.dtype, v.dtype), **key)
        m = max([float(np.max(np.abs(a[1]))) for a in ref[kx] if a[0] and np.all(np.isfinite(a[1]))] or [0.0])
        tol = 1e-10
        if s.get("opts", s.get("base", {}).get("opts", {})).get("use_FD") and kx is not None:
            tol = 1e-3
        if kx is not None:          # a derivative that cancels to nothing is judged by the size of the values
            c = max([float(np.max(np.abs(a[1]))) for a in ref[None] if a[0] and np.all(np.isfinite(a[1]))] or [0.0])
            m = max(m, c / float(probs[o["p"]].xlimits[kx, 1] - probs[o["p"]].xlimits[kx, 0]))
        for j in range(len(v)):
            if not U.close(np.ravel(g[j]), np.ravel(v[j]), tol, tol * m):
                return bad("answer-depends", "%s kx %r, rows %r, row %d, layout %s, after %r: %r; alone in a fresh process: %r" % (
                    s, kx, o["rows"], j, o["lay"], where, g[j], v[j]), **key)
        return None

    used = {}

    def evaluate(p, o, keep=True):
        x = array(refs[o["p"]][0][o["rows"]], o["lay"])
        if keep and x.flags.writeable:
            # the caller's own array, filled with other points each time
            k = (o["p"], x.shape, x.dtype.str, x.strides)
            x = used.setdefault(k, x)
            x[...] = refs[o["p"]][0][o["rows"]].reshape(x.shape)
        x0 = x.copy()
        y = U.outcome(lambda: p(x, kx_of(o)))
        kept = bool(np.array_equal(x, x0))
        if y.ok and o["smash"]:
            v = np.array(y.v)
            if x.flags.writeable:
                x[...] = -3.25
            if not np.array_equal(v, y.v, equal_nan=True):
                kept = "alias"
            try:
                y.v[...] = 1e30
            except ValueError:
                pass
            y.v = v
        return y, kept

    def notes(o, kept):
        if kept is True:
            return None
        s = case["probs"][o["p"]]
        return bad("points-altered" if kept is False else "answer-aliases-points", "%s kx %r layout %s" % (s, kx_of(o), o["lay"]), problem=s["kind"])

    for o in case["ops"]:
        if o["p"] >= len(probs):
            continue
        p, x = probs[o["p"]], refs[o["p"]][0]
        rec.op(o["do"])
        rec.state(case["probs"][o["p"]]["kind"], kx_of(o), o["lay"], seen[-2:])
        if o["do"] == "eval":
            y, kept = evaluate(p, o)
            b = judge(o, y, seen) or notes(o, kept)
            if b:
                return b
            rec.log("eval", o["p"], y.v if y.ok else y.err)
        elif o["do"] == "copy":
            q = copy.deepcopy(p)
            y, kept = evaluate(q, o)
            b = judge(o, y, seen + ["copied"]) or notes(o, kept)
            if b:
                return b
            rec.log("copy", y.v if y.ok else y.err)
        elif o["do"] == "interrupt":
            twin = make(case["probs"][o["p"]])
            with inject.Sites() as st:
                U.outcome(lambda: evaluate(twin, o, False))
            site = inject.choose(st.eligible(), o["a"], o["b"])
            if site is None:
                continue
            e = {"kbd": KeyboardInterrupt, "mem": MemoryError}[o["exc"]]("injected")
            inj = inject.Interrupt(site[0], site[1], site[2], e)
            err = None
            xx = array(x[o["rows"]], o["lay"])
            try:
                with inj:
                    p(xx, kx_of(o))
            except BaseException as ex:
                err = ex
            if inj.fired:
                rec.fault("interrupted evaluation")
                if err is not e:
                    return bad("interrupt-swallowed", "%s at %s:%d gave %r" % (o["exc"], site[0], site[1], err), problem=case["probs"][o["p"]]["kind"])
            rec.log("interrupt", site)
        else:
            xx = x[o["rows"]].copy()
            kx = kx_of(o)
            if o["do"] == "wide":
                xx = np.hstack([xx, xx[:, :1]])
            elif o["do"] == "list":
                xx = xx.tolist()
            elif o["do"] == "bad-kx":
                kx = 1.5
            else:
                kx = -1
            y = U.outcome(lambda: p(xx, kx))
            if y.ok:
                return bad("accepted", "%s: %s evaluation gave %r" % (case["probs"][o["p"]], o["do"], y), problem=case["probs"][o["p"]]["kind"])
            rec.fault("rejected evaluation")
            rec.log(o["do"], y.err)
        seen.append((o["p"], o["do"], kx_of(o)))
        if len(seen) > 1:
            rec.nontrivial = True
    tasks = [[o for o in t if o["p"] < len(probs)] for t in case["tasks"]]
    if len(tasks) > 1 and all(tasks):
        s = Sched(case["sched"])
        got = {}

        def body(t, todo):
            def f():
                for j, o in enumerate(todo):
                    got[t, j] = evaluate(probs[o["p"]], o, False)
            return f
        for t, todo in enumerate(tasks):
            s.spawn(body(t, todo), np_seed=3)
        s.run()
        rec.probe("switches", len(s.switches))
        rec.refined = s.refine(case)
        for t in s.tasks:
            if t.error is not None:
                return bad("thread-died", "task %d: %r" % (t.no, t.error))
        for t, todo in enumerate(tasks):
            for j, o in enumerate(todo):
                y, kept = got[t, j]
                b = judge(o, y, "%d switches" % len(s.switches)) or notes(o, kept)
                if b:
                    return b
                rec.log(t, j, y.v if y.ok else y.err)
    for p, a, s in zip(probs, made, case["probs"]):
        if not np.array_equal(p.xlimits, a):
            return bad("limits-altered", "%s: %r; when made: %r" % (s, p.xlimits.tolist(), a.tolist()), problem=s["kind"])
    return None
