"""A copied, saved or restored model is the same model, and one of its own."""
import copy, pickle
import numpy as np
from sim import boot, inject, universe as U, comp
from sim.alone import Later
from sim.core import bad
from sim.session import Session
from checks import H01, H03

TECH = "seeded histories of a family of copies (deep copies, pickled and restored ones, also in a pristine process), each trained, fed, reconfigured, asked and interrupted in turn; every member compared with a fresh instance of its own history"
LEVEL = "exploration"
N = {"quick": 320, "thorough": 20000}
RULE = ("a case gives a model a short history, copies members of the growing family at random moments and goes on with random members: training, interrupted training, "
        "new data, options, requests; after every step all members answer as before or, when trained, as a fresh instance; non-trivial when a copy was compared")
REAL = ["all of smt.surrogate_models, smt.applications.MFK/MFKPLS/MFKPLSK/MOE/VFM, compiled extensions"]
STUB = ["process-wide numpy random state (reseeded before every training)"]
STATES = "hash of (model, kinds of copies, operations)"
ASSUME = ["copying a trained model of the compiled kinds (IDW, RBF, RMTB, RMTC) is refused by its extension; then only the original is judged"]


def gen(r, i, tier):
    if r.random() < .15:
        spec = comp.gen_spec(r)
        ops = []
        for _ in range(r.randint(1, 5)):
            ops.append({"op": r.choice(["copy", "copy", "ask", "train", "smash"]), "m": r.randint(0, 9), "how": r.choice(["deep", "pickle", "away"]), "np": r.randint(0, 9),
                        "a": r.random(), "b": r.random()})
        return {"spec": spec, "data": r.randint(0, 30), "np": r.randint(0, 9), "ops": ops}
    spec = U.gen_spec(r)
    if spec["model"] in U.KRIGING:
        spec["opts"]["nugget"] = 1e-8
    elif spec["model"] == "RBF":
        spec["opts"]["reg"] = 1e-4
    ops = [{"op": "set", "data": r.randint(0, 30), "nt": spec["nt"]}]
    if r.random() < .85:
        ops.append({"op": "train", "np": r.randint(0, 99)})
    ops.append({"op": "copy", "how": r.choice(["deep", "pickle", "away"])})
    for o in H01.gen_ops(r, spec, r.randint(2, 7))[1:]:
        ops.append(o)
        if r.random() < .3:
            ops.append({"op": "copy", "how": r.choice(["deep", "pickle", "away"])})
        if r.random() < .15:
            ops.append({"op": "interrupt", "np": r.randint(0, 9), "a": r.random(), "b": r.random(), "exc": r.choice(["kbd", "mem"])})
        if r.random() < .1:
            ops.append({"op": "smash"})
    for o in ops:
        o["m"] = r.randint(0, 9)
    return {"spec": spec, "data": 0, "np": 0, "ops": ops}


def answers(sm, spec):
    return {q: U.outcome(U.ask, sm, q[0], U.queries(spec, q[1], q[2])) for q in U.probes(spec, 0, 3, kinds(spec))}


def kinds(spec):
    return comp.requests(spec) if spec["model"] in ("MOE", "VFM") else U.requests(spec)


def elsewhere(data, spec):
    """Answers of a saved model in another process."""
    boot.load()
    sm = pickle.loads(data)
    return {q: (o.ok, o.v, o.err) for q, o in answers(sm, spec).items()}


def sizes(sm, spec, data, ans):
    sc = {}
    for q, o in ans.items():
        v = np.asarray(o.v, float).ravel() if o.ok else np.zeros(1)
        v = v[np.isfinite(v)]
        sc[q[0]] = float(np.max(np.abs(v))) if v.size else 0.0
    H03.widen(sm, {"spec": spec, "data": data}, sc)
    return sc


def differ(got, want, sc, tol):
    for q in want:
        g, w = got[q], want[q]
        if g.ok and w.ok:
            ok = np.shape(g.v) == np.shape(w.v) and U.close(np.ravel(g.v), np.ravel(w.v), tol, tol * sc.get(q[0], 0.0))
        else:
            ok = g.ok == w.ok and g.err == w.err
        if not ok:
            return "request %s: %r; expected %r" % (q[0], g, w)
    return None


def smash(sm, depth=0, seen=None):
    """Overwrites every array the object owns."""
    seen = set() if seen is None else seen
    if id(sm) in seen or depth > 6:
        return
    seen.add(id(sm))
    if isinstance(sm, np.ndarray):
        if sm.flags.writeable and sm.dtype.kind in "fiu" and sm.size:
            sm.fill(77)
    elif isinstance(sm, dict):
        for v in list(sm.values()):
            smash(v, depth + 1, seen)
    elif isinstance(sm, (list, tuple)):
        for v in sm:
            smash(v, depth + 1, seen)
    elif hasattr(sm, "__dict__") and not isinstance(sm, type) and not callable(sm):
        smash(vars(sm), depth + 1, seen)


class Member:
    def __init__(self, s, name):
        self.s, self.name = s, name
        self.ans = self.sc = None       # what it answers now
        self.gone = False

    @property
    def sm(self):
        return self.s.sm

    def look(self, spec, data):
        self.ans = answers(self.sm, spec)
        self.sc = sizes(self.sm, spec, data, self.ans)


class Plain:
    """A composite model: built and trained at once."""

    def __init__(self, spec, sm):
        self.spec, self.sm, self.trained = spec, sm, True
        self.data, self.opts, self.given = [], {}, {}


def copied(m, how, later, spec):
    """(session of the copy, None) or (None, why it was refused)."""
    try:
        if how == "deep":
            sm = copy.deepcopy(m.sm)
        else:
            sm = pickle.loads(pickle.dumps(m.sm))
    except (TypeError, AttributeError, pickle.PicklingError) as e:
        return None, "%s: %s" % (type(e).__name__, e)
    t = copy.copy(m.s)
    t.sm = sm
    t.opts = dict(m.s.opts)
    t.data = [list(d) for d in m.s.data]
    t.given = {k: U.decode(v) for k, v in t.opts.items()}
    return t, None


def run(case, rec):
    boot.load()
    spec = case["spec"]
    model = spec["model"]
    plain = model in ("MOE", "VFM")
    later = Later()
    if plain:
        sm = comp.build(spec, case["data"])
        o = comp.train(sm, spec, case["np"])
        if not o.ok:
            rec.log("untrained", o.err)
            return None
        fam = [Member(Plain(spec, sm), "0")]
        fam[0].look(spec, case["data"])
    else:
        fam = [Member(Session(spec), "0")]
    hist = []
    for i, op in enumerate(case["ops"]):
        live = [m for m in fam if not m.gone]
        m = live[op["m"] % len(live)]
        k = op["op"]
        hist.append((k, m.name) if k != "copy" else (op["how"], m.name))
        rec.op(k)
        s = m.s
        changed = False
        data = case["data"] if plain else (s.data[0][3] if s.data else 0)
        if k == "copy":
            t, why = copied(m, op["how"], later, spec)
            rec.log("copy", op["how"], why)
            rec.probe("refused copies" if why else "copies")
            if t is None:
                if model not in ("IDW", "RBF", "RMTB", "RMTC", "VFM", "MOE"):
                    return bad("copy-refused", "step %d of %s, %s: %s" % (i, hist, op["how"], why), model=model)
            else:
                c = Member(t, "%s.%d" % (m.name, len(fam)))
                fam.append(c)
                if m.ans is not None:
                    got = answers(c.sm, spec)
                    d = differ(got, m.ans, m.sc, 1e-8)
                    if d:
                        return bad("copy-differs", "step %d of %s, %s: %s" % (i, hist, op["how"], d), model=model)
                    c.ans, c.sc = got, m.sc
                    rec.nontrivial = True
                    if op["how"] == "away":
                        far = {q: U.Out(*v) for q, v in later.call(elsewhere, pickle.dumps(m.sm), spec).items()}
                        d = differ(far, m.ans, m.sc, 1e-8)
                        if d:
                            return bad("restored-differs", "step %d of %s: %s" % (i, hist, d), model=model)
                        rec.probe("restored in another process")
        elif k == "smash":
            # everything this member owns is overwritten: it is of no use any more, the others are
            if len(live) > 1:
                smash(m.sm)
                m.gone = True
                rec.fault("member destroyed")
        elif k == "interrupt":
            if not s.data:
                continue
            site = None
            twin = s.fresh()
            with inject.Sites() as st:
                U.train(twin, op["np"])
            site = inject.choose(st.eligible(), op["a"], op["b"])
            if site is None:
                continue
            e = {"kbd": KeyboardInterrupt, "mem": MemoryError}[op["exc"]]("injected")
            inj = inject.Interrupt(site[0], site[1], site[2], e)
            np.random.seed(op["np"])
            try:
                with inj:
                    m.sm.train()
            except BaseException as ex:
                rec.log("interrupted", type(ex).__name__)
            if inj.fired:
                rec.fault("interrupted training")
            # a training cut short leaves no model to ask, only one to train
            m.ans, s.trained, changed = None, False, True
        elif plain:
            if k == "train" and model == "MOE":
                sm2 = comp.build(spec, op["np"])
                np_o = comp.train(sm2, spec, op["np"])
                x, y = comp.moe_data(spec, op["np"])[:2]
                if spec.get("ct") or spec.get("test") or spec["how"] != "set" or not np_o.ok:
                    continue
                m.sm.set_training_values(x, y)
                o = comp.train(m.sm, spec, op["np"])
                m.gone = not o.ok
                changed = True
        elif k == "set":
            s.set(op["data"], op["nt"])
            changed = True
        elif k == "update":
            if s.data:
                s.update(op["y"])
                changed = True
        elif k == "opt":
            s.option(op["k"], op["v"])
            changed = True
        elif k == "train":
            if not s.data:
                continue
            got = s.train(op["np"])
            want, ref = s.reference(op["np"])
            rec.log("train", got.ok, got.err)
            if got.ok != want.ok or got.err != want.err:
                return bad("train-outcome", "step %d of %s: %r; fresh: %r" % (i, hist, got, want), model=model)
            if got.ok:
                m.look(spec, s.data[0][3])
            else:
                m.ans = None            # no model to ask until it is trained again
            if got.ok:
                d = differ(m.ans, ref.ans, m.sc, 1e-6)
                if d:
                    return bad("train-differs", "step %d of %s: %s" % (i, hist, d), model=model)
            changed = True
        elif k == "ask":
            if s.trained:
                o = U.outcome(U.ask, m.sm, op["req"], U.queries(spec, op["q"], op["n"]))
                rec.log("ask", op["req"], o.v if o.ok else o.err)
        rec.state(model, [h[0] for h in hist][-4:], len(fam))
        if changed and not m.gone and s.trained:     # new data or options that no training took up yet included: a copy shares them
            m.look(spec, data)
        for n in fam:
            if n.gone or n.ans is None or (changed and n is m):
                continue
            d = differ(answers(n.sm, spec), n.ans, n.sc, 1e-9)
            if d:
                return bad("member-disturbed", "step %d of %s: member %s, %s" % (i, hist, n.name, d), model=model)
        if not plain:
            for n in fam:
                if n.gone or not n.s.given:
                    continue
                for kk, v in n.s.opts.items():
                    from sim.session import eq
                    if not eq(n.sm.options[kk], U.decode(v)):
                        return bad("option-altered", "step %d of %s: member %s, option %s is %r, was set to %r" % (i, hist, n.name, kk, n.sm.options[kk], U.decode(v)), model=model)
    later.end()
    return None
