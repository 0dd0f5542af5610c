"""The caller's data and the model's data never alias."""
import copy, random
import numpy as np
from sim import universe as U, comp, seams
from sim.session import eq
from sim.core import bad

TECH = "seeded histories in which a simulated caller overwrites its arrays at arbitrary moments, compared with a caller that does not"
LEVEL = "exploration"
N = {"quick": 680, "thorough": 22000}
RULE = ("a case is a model (surrogate, mixture of experts, variable fidelity), a sampling method or a mixed-integer context with a random "
        "history of 4-12 operations; every array, list and dictionary passed in is compared with a private copy after each operation, and "
        "the caller overwrites passed and received objects at random moments; answers are compared with those given to a caller that "
        "leaves everything alone; non-trivial when something was overwritten and an answer compared afterwards")
REAL = ["all of smt.surrogate_models, smt.applications.MFK/MFKPLS/MFKPLSK/MOE/VFM, smt.sampling_methods, compiled extensions"]
STUB = ["the caller (generated)", "process-wide numpy random state (reseeded)"]
STATES = "hash of (model, operation kinds)"
ASSUME = ["containers nested in objects of other classes (a surrogate passed as an option) are the caller's business"]


def gen(r, i, tier):
    u = r.random()
    if u < .2:
        spec = comp.gen_spec(r)
        kinds = comp.requests(spec)
        fam = "comp"
    elif u < .35:
        spec = comp.gen_sampling(r, ("LHS", "LHS", "FullFactorial", "Random", "NestedLHS"))
        if "random_state" not in spec["opts"] and spec["method"] == "LHS":
            spec["opts"]["random_state"] = r.randint(0, 50)
        return {"fam": "sampling", "spec": spec, "ops": [{"op": r.choice(["ask", "ask", "smash-in", "smash-out"]), "n": r.choice([2, 4, 6])}
                                                         for _ in range(r.randint(2, 6))]}
    else:
        spec = U.gen_spec(r)
        kinds = U.requests(spec)
        fam = "surr"
    ops = []
    for _ in range(r.randint(3, 10)):
        ops.append({"op": r.choice(["ask", "ask", "ask", "smash-data", "smash-opts", "smash-x", "smash-out", "train", "update"]),
                    "req": r.choice(kinds), "n": r.choice([1, 2, 4]), "q": r.randint(0, 4), "how": r.choice(["plain", "plain", "fortran", "flat", "view", "int"]),
                    "np": r.randint(0, 3), "y": r.randint(0, 9)})
    return {"fam": fam, "spec": spec, "data": r.randint(0, 20), "np": r.randint(0, 9), "ops": ops,
            "early": r.random() < .5}


class Watch:
    """Everything the caller passed in, with a private copy of it."""

    def __init__(self):
        self.items = []

    def add(self, label, obj):
        if isinstance(obj, (np.ndarray, list, dict)):
            self.items.append([label, obj, copy.deepcopy(obj)])
        return obj

    def changed(self):
        for label, obj, was in self.items:
            if not deep_eq(obj, was):
                return "%s was %s, is %s" % (label, str(was)[:200], str(obj)[:200])
        return None

    def smash(self, prefix):
        n = 0
        for it in self.items:
            if it[0].startswith(prefix):
                n += ruin(it[1])
                it[2] = copy.deepcopy(it[1])
        return n


def deep_eq(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(deep_eq(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and bool(np.array_equal(a, b, equal_nan=a.dtype.kind == "f"))
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(deep_eq(x, y) for x, y in zip(a, b))
    return a is b or type(a) == type(b) and a == b


def ruin(o):
    if isinstance(o, np.ndarray):
        if o.flags.writeable and o.size:
            o[...] = 77 if o.dtype.kind in "iu" else -1234.5
            return 1
        return 0
    if isinstance(o, list):
        o[:] = [ruin_item(x) for x in o] + [3]
        return 1
    if isinstance(o, dict):
        for k in list(o):
            if isinstance(o[k], (np.ndarray, list, dict)):
                ruin(o[k])
        o["intruder"] = 1
        return 1
    return 0


def ruin_item(x):
    if isinstance(x, (np.ndarray, list, dict)):
        ruin(x)
        return x
    return 17


def update(sm, case, y):
    from sim.session import _newy
    spec = case["spec"]
    for kind, lvl, k, x, _ in U.training(spec, case["data"]):
        v = _newy(spec, kind, lvl, k, x, y)
        if kind == "v":
            sm.update_training_values(v, name=lvl)
        else:
            sm.update_training_derivatives(v, k, name=lvl)
        yield v


def shaped(x, how, nx):
    if how == "fortran":
        return np.asfortranarray(x)
    if how == "flat" and nx == 1:
        return x.ravel()
    if how == "view":
        b = np.zeros((2 * len(x), x.shape[1] + 1))
        b[::2, :-1] = x
        return b[::2, :-1]
    if how == "int":
        return np.round(x).astype(int)
    return x


def run(case, rec):
    if case["fam"] == "sampling":
        return run_sampling(case, rec)
    spec = case["spec"]
    m = spec["model"]
    rich = case["fam"] == "surr"
    w = Watch()
    # the quiet caller
    if rich:
        Q = U.build(spec)
        U.feed(Q, U.training(spec, case["data"]))
    else:
        Q = comp.build(spec, case["data"])
    # the watched caller
    if rich:
        o = {k: U.decode(v) for k, v in spec["opts"].items()}
        o.setdefault("print_global", False)
        for k, v in o.items():
            w.add("opts:" + k, v)
        P = U.classes()[m](**o)
        for kind, lvl, k, x, y in U.training(spec, case["data"]):
            w.add("data:x", x)
            w.add("data:y", y)
            if kind == "v":
                P.set_training_values(x, y, name=lvl)
            else:
                P.set_training_derivatives(x, y, k, name=lvl)
    else:
        o = comp.options(spec, case["data"])
        for k, v in o.items():
            w.add("opts:" + k, v)
        P = comp.build(spec, case["data"], o)
        if m == "MOE" and spec["how"] == "set":
            x, y = comp.moe_data(spec, case["data"])[:2]
            w.add("data:x", x)
            w.add("data:y", y)
            P.set_training_values(x, y)
    smashed = 0
    if case["early"]:
        smashed += w.smash("data") + w.smash("opts")

    def train(a):
        return U.train(a, case["np"]) if rich else comp.train(a, spec, case["np"])
    a, b = train(Q), train(P)
    rec.log("train", a.ok, b.ok, a.err)
    c = w.changed()
    if c:
        return bad("argument-modified", "training: " + c, model=m, what=c.split()[0])
    if not U.same(U.Out(a.ok, err=a.err), U.Out(b.ok, err=b.err)):
        return bad("alias-outcome", "the caller overwrote its objects before training: %r; otherwise %r" % (b, a), model=m)
    if not a.ok:
        return None
    outs = []
    hist = []
    for i, op in enumerate(case["ops"]):
        k = op["op"]
        hist.append(k)
        rec.op(k)
        rec.state(m, k, smashed > 0, op["how"])
        if k == "ask":
            x = shaped(U.queries(spec, op["q"], 1 if op["req"] == "e" else op["n"]), op["how"], spec["nx"])
            twin = shaped(U.queries(spec, op["q"], 1 if op["req"] == "e" else op["n"]), op["how"], spec["nx"])
            want = U.outcome(U.ask, Q, op["req"], twin)
            if want.ok:
                want.v = copy.deepcopy(want.v)
            w.add("x:%d" % i, x)
            raw = U.outcome(raw_ask, P, op["req"], x)
            got = U.Out(raw.ok, flatten(raw.v), raw.err, raw.msg) if raw.ok else raw
            if raw.ok:
                outs.append(raw.v)
            if smashed:
                rec.nontrivial = True
            rec.log(op["req"], got.v if got.ok else got.err)
            if not U.same(got, want, 1e-12):
                return bad("alias", "step %d, request %s after %s: %r, for a caller that leaves its objects alone %r" % (
                    i, op["req"], hist, got, want), model=m, req=op["req"][0])
        elif k == "smash-data":
            smashed += w.smash("data")
        elif k == "smash-opts":
            smashed += w.smash("opts")
        elif k == "smash-x":
            smashed += w.smash("x:")
        elif k == "smash-out":
            for v in outs:
                smashed += ruin_out(v)
            outs = []
        elif k == "train":
            a, b = train(Q), train(P)
            if a.ok != b.ok or a.err != b.err:
                return bad("alias-outcome", "step %d, training after %s: %r, otherwise %r" % (i, hist, b, a), model=m)
            if not a.ok:
                return None
        elif k == "update" and rich:
            vs = list(update(P, case, op["y"]))
            list(update(Q, case, op["y"]))
            for v in vs:
                w.add("data:newy", v)
            smashed += w.smash("data:newy")
            a, b = train(Q), train(P)
            if a.ok != b.ok or a.err != b.err:
                return bad("alias-outcome", "step %d, training after %s: %r, otherwise %r" % (i, hist, b, a), model=m)
            if not a.ok:
                return None
        c = w.changed()
        if c:
            return bad("argument-modified", "step %d (%s %s): %s" % (i, k, op["req"], c), model=m, what=c.split()[0].split(":")[0])
    return None


def raw_ask(sm, req, x):
    return sm.predict_output_derivatives(x) if req == "o" else U.ask(sm, req, x)


def flatten(v):
    if isinstance(v, dict):
        ks = sorted(v, key=lambda k: -1 if k is None else k)
        n = np.asarray(v[ks[0]]).shape[0]
        return np.concatenate([np.asarray(v[k]).reshape(n, -1) for k in ks], axis=1)
    return copy.deepcopy(v)


def ruin_out(v):
    if isinstance(v, dict):
        return sum(ruin(x) for x in v.values() if isinstance(x, np.ndarray))
    return ruin(v) if isinstance(v, np.ndarray) else 0


def run_sampling(case, rec):
    spec = case["spec"]
    w = Watch()
    o = {k: U.decode(v) for k, v in spec["opts"].items()}
    lim = np.array(spec["lim"], float)
    w.add("opts:xlimits", lim)
    for k, v in o.items():
        w.add("opts:" + k, v)
    from smt.sampling_methods import LHS, FullFactorial, Random
    from smt.applications.mfk import NestedLHS
    if spec["method"] == "NestedLHS":
        P = NestedLHS(spec["nlevel"], lim, **o)
    else:
        P = {"LHS": LHS, "FullFactorial": FullFactorial, "Random": Random}[spec["method"]](xlimits=lim, **o)
    Q = comp.generator(spec)
    outs, smashed = [], 0
    for i, op in enumerate(case["ops"] + [{"op": "ask", "n": 3}]):
        rec.op(op["op"])
        rec.state(spec["method"], op["op"], smashed > 0)
        if op["op"] == "ask":
            np.random.seed(i)
            seams.ENTROPY = random.Random(i)
            want = U.outcome(Q, op["n"])
            np.random.seed(i)
            seams.ENTROPY = random.Random(i)
            got = U.outcome(P, op["n"])
            outs.append(got.v)
            gv = [np.array(v) for v in got.v] if isinstance(got.v, list) else [np.array(got.v)] if got.ok else []
            wv = [np.array(v) for v in want.v] if isinstance(want.v, list) else [np.array(want.v)] if want.ok else []
            rec.log(got.ok, *gv)
            if smashed:
                rec.nontrivial = True
            if got.ok != want.ok or len(gv) != len(wv) or not all(np.array_equal(a, b) for a, b in zip(gv, wv)):
                return bad("alias", "step %d: sampling after overwriting gives other points" % i, model=spec["method"])
        elif op["op"] == "smash-in":
            smashed += w.smash("opts")
        else:
            for v in outs:
                for t in (v if isinstance(v, list) else [v]):
                    if isinstance(t, np.ndarray):
                        smashed += ruin(t)
            outs = []
        c = w.changed()
        if c:
            return bad("argument-modified", "step %d (%s): %s" % (i, op["op"], c), model=spec["method"], what=c.split()[0])
    return None
