"""Mixtures of experts, variable-fidelity and multi-fidelity models are the stated combination of their parts, after any history."""
import numpy as np
from sim import universe as U, comp, kriging
from sim.session import Session, eq
from sim.core import bad

TECH = "seeded histories of several composite models built from the same settings, with failing trainings of parts; every training judged against an independent recombination, every instance against its own earlier answers"
LEVEL = "exploration"
N = {"quick": 320, "thorough": 12000}
RULE = ("a case is a history (build from shared or own settings, new data, new options, train, train with a failing part, predict) of up to three mixtures of experts, "
        "variable-fidelity or multi-fidelity models; after each training the parts' recombination is computed independently; after each step the other trained instances "
        "must answer as before; non-trivial when an instance was retrained, shared settings with another or had a failing training before")
REAL = ["smt.applications.MOE, MOESurrogateModel, VFM, MFK, MFKPLS, MFKPLSK, all experts, sklearn's clustering"]
STUB = ["chosen trainings of parts (fail by plan)", "process-wide numpy random state (reseeded)"]
STATES = "hash of (family, configuration, history, outcome)"
ASSUME = ["experts and validation are observed by recording the trainings and predictions of surrogates during the training of the mixture",
          "points where two clusters are equally likely are left out under hard recombination"]
EXPERTS = ["KRG", "KPLS", "KPLSK", "LS", "QP", "RBF", "IDW", "RMTB", "RMTC"]
HAVE_S = {"KRG", "KPLS", "KPLSK"}
FAULTS = {"mem": MemoryError, "lin": np.linalg.LinAlgError, "kbd": KeyboardInterrupt, "val": ValueError}


def gen(r, i, tier):
    fam = r.choice(["moe", "moe", "moe", "vfm", "vfm", "mfk"])
    if fam == "mfk":
        spec = U.gen_spec(r, ("MFK", "MFK", "MFKPLS", "MFKPLSK"))
    else:
        spec = comp.gen_spec(r, ["MOE" if fam == "moe" else "VFM"])
    if fam == "moe":
        o = spec["opts"]
        if r.random() < .1:
            o["derivatives_support"] = True
        if r.random() < .1 and not o.get("variances_support"):
            o["allow"] = sorted(set(o["allow"] + ["RMTC"]))
        spec["wrap"] = spec["how"] == "options" and r.random() < .3
    if fam == "vfm" and r.random() < .2:
        o = spec["opts"]
        o["name_model_bridge"], o["options_bridge"] = o["name_model_LF"], o["options_LF"]
        spec["alias"] = True
    ops, built = [], []
    for n in range(r.randint(3, 7 if fam == "moe" else 12)):
        k = r.choice([0, 0, 1, 2]) if not built or r.random() < .3 else r.choice(built)
        if k not in built:
            ops.append({"op": "build", "k": k, "own": r.random() < .3, "data": r.randint(0, 4)})
            built.append(k)
            continue
        what = r.choice(["train", "train", "train", "train", "fail", "data", "option", "ask", "rebuild"])
        if what == "rebuild":
            ops.append({"op": "build", "k": k, "own": r.random() < .3, "data": r.randint(0, 4)})
        elif what == "train":
            ops.append({"op": "train", "k": k, "np": r.randint(0, 99)})
        elif what == "fail":
            ops.append({"op": "fail", "k": k, "np": r.randint(0, 99), "at": r.choice([0, 1, 2, 3, 5, 8]), "what": r.choice(sorted(FAULTS)),
                        "after": r.random() < .3})
        elif what == "data":
            ops.append({"op": "data", "k": k, "data": r.randint(0, 4)})
        elif what == "option":
            if fam == "moe":
                key = r.choice(["n_clusters", "smooth_recombination", "heaviside_optimization"])
                v = {"n_clusters": r.choice([1, 2, 3]), "smooth_recombination": r.random() < .5, "heaviside_optimization": r.random() < .7}[key]
                ops.append({"op": "option", "k": k, "key": key, "val": v})
        else:
            ops.append({"op": "ask", "k": k, "q": r.randint(0, 5), "far": r.random() < .3})
    ops.append({"op": "train", "k": r.choice(built), "np": r.randint(0, 99)})
    return {"fam": fam, "spec": spec, "ops": ops}


def shrink(case):
    from sim.core import default_shrink
    for c in default_shrink(case):
        have = set()
        good = bool(c["ops"])
        for o in c["ops"]:
            if o["op"] == "build":
                have.add(o["k"])
            elif o["k"] not in have:
                good = False
        if good:
            yield c


class Spy:
    """Records the trainings and predictions of surrogates, and fails one training by plan."""

    def __init__(self, fault=None):
        self.trained, self.predicted, self.fault, self.n, self.fired = [], [], fault, 0, False

    def __enter__(self):
        from smt.surrogate_models.surrogate_model import SurrogateModel
        self.cls = SurrogateModel
        self.old = SurrogateModel.train, SurrogateModel.predict_values
        spy = self

        def train(sm):
            n = spy.n
            if sm.name != "MOE":
                spy.n += 1
            f = spy.fault
            hit = f is not None and n == f["at"] and sm.name != "MOE"
            if hit and not f["after"]:
                spy.fired = True
                raise FAULTS[f["what"]]("injected")
            t = sm.training_points[None][0]
            if sm.name != "MOE":
                spy.trained.append((sm, np.array(t[0], float), np.array(t[1], float)))
            spy.old[0](sm)
            if hit:
                spy.fired = True
                raise FAULTS[f["what"]]("injected")

        def predict_values(sm, x):
            x0 = np.array(x, float)
            y = spy.old[1](sm, x)
            spy.predicted.append((sm, x0.reshape(len(x0), -1), np.array(y, float)))
            return y
        SurrogateModel.train, SurrogateModel.predict_values = train, predict_values
        return self

    def __exit__(self, *a):
        self.cls.train, self.cls.predict_values = self.old


def rows(a):
    a = np.asarray(a, float)
    return sorted(map(tuple, a.reshape(len(a), -1)))


def admitted(o):
    out = [n for n in EXPERTS if not o.get("variances_support") or n in HAVE_S]
    if o.get("allow"):
        out = [n for n in out if n in o["allow"]]
    return {n for n in out if n not in o.get("deny", [])}


def log_weights(moe, x, factor):
    """Logarithm of weight times density of each cluster at each point."""
    w, m, c = moe.cluster.weights_, moe.cluster.means_, moe.cluster.covariances_
    nx = x.shape[1]
    out = np.zeros((len(x), len(w)))
    for k in range(len(w)):
        cov = factor * c[k][:nx, :nx]
        d = x - m[k][:nx]
        out[:, k] = np.log(w[k]) - .5 * (np.sum(d * np.linalg.solve(cov, d.T).T, axis=1) + np.linalg.slogdet(cov)[1] + nx * np.log(2 * np.pi))
    return out


def gates(lw):
    p = np.exp(lw - np.max(lw, axis=1, keepdims=True))
    return p / np.sum(p, axis=1, keepdims=True)


def split(values):
    mask = np.zeros(len(values), bool)
    mask[::10] = True
    return values[mask], values[~mask]


def moe_laws(app, moe, spec, o, data, spy, rec):
    x, y, c, xt, yt = data
    nx = x.shape[1]
    c = y if c is None else c
    values = np.c_[x, y, c]
    tests, tr = (np.c_[xt, yt], values) if xt is not None else split(values)
    cl = moe.cluster
    nc = o.get("n_clusters", 2)
    # the clustering is one of the training points and the clustering outputs
    z = np.c_[tr[:, :nx], tr[:, nx + 1:]]
    if cl.means_.shape != (nc, z.shape[1]):
        return "clustering", "%s means for %d clusters of %d-dimensional points" % (cl.means_.shape, nc, z.shape[1])
    mean = cl.weights_ @ cl.means_
    if np.max(np.abs(mean - np.mean(z, axis=0)) / (np.std(z, axis=0) + 1e-12)) > 1e-6:
        return "clustering", "mean of the mixture is %s, of the points %s" % (mean, np.mean(z, axis=0))
    # experts
    exp = getattr(moe, "_experts", None)
    if exp is None:
        rec.probe("experts not visible")
        return None
    if len(exp) != nc or len(set(map(id, exp))) != nc:
        return "experts", "%d experts for %d clusters" % (len(exp), nc)
    want = admitted(o)
    lab = cl.predict(z)
    whole = cl.predict(np.c_[x, c])
    for k in range(nc):
        pts = tr[lab == k]
        val, rest = split(pts)
        cand = {}
        vrows = {v[:nx] for v in rows(pts[:, :nx + 1])}
        for sm, a, b in spy.trained:
            if a.shape == rest[:, :nx].shape and rows(np.c_[a, b]) == rows(rest[:, :nx + 1]):
                for sm2, px, py in spy.predicted:
                    if sm2 is sm and rows(px) == rows(val[:, :nx]) and type(sm).__name__ not in cand:
                        e = dict(zip(map(tuple, px), np.ravel(py)))
                        cand[type(sm).__name__] = float(np.linalg.norm([e[tuple(v[:nx])] - v[nx] for v in val]))
        if set(cand) != want:
            return "candidates", "cluster %d: %s were validated, the options admit %s" % (k, sorted(cand), sorted(want))
        name = type(exp[k]).__name__
        best = min(cand.values()) if not np.any(np.isnan(list(cand.values()))) else np.nan
        rec.probe("validated experts", len(cand))
        if name not in cand or cand[name] > best * (1 + 1e-9) + 1e-300:
            return "selection", "cluster %d: expert %s, validation errors %s" % (k, name, cand)
        t = exp[k].training_points[None][0]
        final = values[whole == k] if xt is None else rest
        if rows(np.c_[np.reshape(t[0], (-1, nx)), np.ravel(t[1])]) != rows(final[:, :nx + 1]):
            return "final-training", "cluster %d: expert trained on %d points, the cluster has %d" % (k, len(t[0]), len(final))
        p = exp[k].predict_values(np.array(final[:, :nx]))
        if name in ("KRG", "IDW") and np.max(np.abs(np.ravel(p) - final[:, nx])) > .3 * (np.ptp(y) + 1e-12):
            return "final-training", "cluster %d: expert %s misses its own data by %g" % (k, name, np.max(np.abs(np.ravel(p) - final[:, nx])))
    # the sharpness of the gates
    f = moe.heaviside_factor
    opt = o.get("heaviside_optimization") and o.get("smooth_recombination", True) and nc > 1
    if not opt and f != 1.0:
        return "heaviside", "factor %r without optimization" % f
    if opt and xt is not None:
        errs = []
        g = np.linspace(.1, 2.1, 21)
        ev = np.hstack([np.reshape(e.predict_values(xt.copy()), (-1, 1)) for e in exp])
        for h in g:
            errs.append(np.linalg.norm(np.ravel(yt) - np.sum(gates(log_weights(moe, xt, h)) * ev, axis=1)) / np.linalg.norm(yt))
        rec.probe("heaviside optimum")
        if max(errs) < 1e-6:
            okf = f == 1.0
        else:
            j = int(np.argmin(np.abs(g - f)))
            okf = abs(g[j] - f) < 1e-9 and errs[j] <= min(errs) * (1 + 1e-6) + 1e-12
        if not okf and not (max(errs) < 1.1e-6 and max(errs) > .9e-6):
            return "heaviside", "factor %r, errors %s" % (f, ["%.4g" % e for e in errs])
    # the recombination
    lim = np.array(spec["lim"], float)
    w = lim[:, 1] - lim[:, 0]
    q = np.vstack([U.queries(spec, "moe", 6), x[::7], lim[:, 1] + 40 * w, lim[:, 0] - 3e3 * w])
    lw = log_weights(moe, q, f)
    p = gates(lw)
    pr = getattr(moe, "_proba_cluster", None)
    if pr is not None:
        g = np.asarray(pr(q.copy()), float)
        if not np.all(np.isfinite(g)) or np.any(g < 0) or np.any(np.abs(np.sum(g, axis=1) - 1) > 1e-9):
            return "gates", "weights %s" % U.short(g)
    smooth = o.get("smooth_recombination", True)
    top = np.sort(lw, axis=1)
    sure = np.ones(len(q), bool) if nc == 1 else (top[:, -1] - top[:, -2] > 1e-6)
    for kind in ["v"] + (["s"] if o.get("variances_support") else []):
        ask = lambda m_, z_: np.ravel(m_.predict_values(z_) if kind == "v" else m_.predict_variances(z_))
        part = np.array([ask(e, q.copy()) for e in exp]).T
        single = np.array([[ask(e, q[j:j + 1].copy())[0] for e in exp] for j in range(len(q))])
        rounding = np.max(np.abs(part - single), axis=1)
        rounding[:-2] = np.max(rounding[:-2])
        got = U.outcome(app.predict_values if kind == "v" else app.predict_variances, q.copy())
        if not got.ok:
            return "no-answer", "%s: %r" % (kind, got)
        if got.v.shape != (len(q), 1):
            return "recombination", "%s: shape %s" % (kind, got.v.shape)
        if smooth:
            ref = np.sum((p if kind == "v" else p * p) * part, axis=1)
            ok = np.ones(len(q), bool)
        else:
            ref = part[np.arange(len(q)), np.argmax(lw, axis=1)]
            ok = sure
        # densities that underflow leave less than full precision far away
        size = np.abs(part) if kind == "v" else np.maximum(np.abs(part), 1e-3 * np.max(np.abs(part), axis=0))
        scale = np.sum(size, axis=1) * (1e-7 if smooth else 1e-9) + 100 * rounding + 1e-300
        far = np.max(lw, axis=1) < -600
        ok = ok & ~(far & (top[:, -1] - top[:, max(0, nc - 2)] < 50)) if nc > 1 and smooth else ok
        rec.probe("recombination")
        if not np.all((np.abs(np.ravel(got.v) - ref) <= scale)[ok]):
            return "recombination", "%s (%s): %s, by the parts %s; gates %s" % (kind, "smooth" if smooth else "hard", np.ravel(got.v), ref, np.round(p, 4).tolist())
    return None


def vfm_laws(app, spec, opts, arrays, spy, rec):
    cls = U.classes()
    xl, yl, xh, yh, dl, dh = arrays
    nx = spec["nx"]
    add = opts["type_bridge"] == "Additive"
    parts = [t[0] for t in spy.trained]
    if len(parts) != 2:
        return "parts", "%s were trained" % [type(p).__name__ for p in parts]
    lf, br = parts
    for sm, w in ((lf, "LF"), (br, "bridge")):
        if type(sm) is not cls[opts["name_model_" + w]]:
            return "parts", "the %s model is a %s" % (w, type(sm).__name__)
        for k, v in opts["options_" + w].items():
            if k != "deriv" and not eq(sm.options[k], U.decode(v)):
                return "parts", "option %s of the %s model is %r, not %r" % (k, w, sm.options[k], U.decode(v))
    l = lf.predict_values(xh.copy())
    h = lambda k: dh[:, k:k + 1]

    def d(k):
        g = lf.predict_derivatives(xh.copy(), k)
        return h(k) - g if add else (h(k) * l - yh * g) / l ** 2
    for sm, w, x, y, dy in ((lf, "LF", xl, yl, lambda k: dl[:, k:k + 1]), (br, "bridge", xh, yh - l if add else yh / l, d)):
        t = sm.training_points[None]
        tol = 1e-5 * (np.max(np.abs(y)) + np.max(np.abs(yh)))
        if not np.array_equal(np.reshape(t[0][0], x.shape), x) or np.max(np.abs(np.reshape(t[0][1], y.shape) - y)) > tol:
            return "parts", "the %s model is trained on %s, should be %s" % (w, U.short(np.asarray(t[0][1])), U.short(y))
        der = bool(opts["options_" + w].get("deriv"))
        if der != any(k > 0 for k in t):
            return "parts", "the %s model is trained with%s derivatives" % (w, "" if any(k > 0 for k in t) else "out")
        for k in range(nx) if der else ():
            if np.max(np.abs(np.ravel(t[k + 1][1]) - np.ravel(dy(k)))) > 1e-4 * (np.max(np.abs(dh)) + np.max(np.abs(dy(k)))):
                return "parts", "the %s model is trained on derivatives %s, should be %s" % (w, U.short(np.ravel(t[k + 1][1])), U.short(np.ravel(dy(k))))
    q = np.vstack([U.queries(spec, "vfm", 5), xh[::3]])
    a, b = lf.predict_values(q.copy()), br.predict_values(q.copy())
    got = U.outcome(app.predict_values, q.copy())
    want = a + b if add else a * b
    rec.probe("recombination")
    if not got.ok or got.v.shape != want.shape or not np.all(np.abs(got.v - want) <= 1e-9 * (np.max(np.abs(a)) + np.max(np.abs(b))) * (1 if add else np.max(np.abs(a)))):
        return "recombination", "values %r, by the parts %s" % (got, U.short(want))
    if lf.supports["derivatives"] and br.supports["derivatives"]:
        ds = []
        for k in range(nx):
            da, db = lf.predict_derivatives(q.copy(), k), br.predict_derivatives(q.copy(), k)
            w = da + db if add else da * b + a * db
            s = np.max(np.abs(da)) + np.max(np.abs(db)) if add else np.max(np.abs(da)) * np.max(np.abs(b)) + np.max(np.abs(a)) * np.max(np.abs(db))
            ds.append(w)
            got = U.outcome(app.predict_derivatives, q.copy(), k)
            rec.probe("recombined derivatives")
            if not got.ok or got.v.shape != w.shape or not np.all(np.abs(got.v - w) <= 1e-8 * s + 1e-12):
                return "recombination", "derivative %d: %r, by the parts %s" % (k, got, U.short(w))
        got = U.outcome(app.predict_derivatives, q.copy(), None)
        w = np.hstack(ds)
        if not got.ok or got.v.shape != w.shape or not np.all(np.abs(got.v - w) <= 1e-8 * np.max(np.abs(w)) + 1e-12):
            return "recombination", "all derivatives: %r, by the parts %s" % (got, U.short(w))
    return None


class Inst:
    """One composite model and what the history says about it."""

    def __init__(self, fam, spec, data, shared):
        self.fam, self.spec, self.data = fam, spec, data
        self.trained, self.ans, self.history = False, None, 0
        self.npseed = None
        if fam == "mfk":
            self.s = Session(spec)
            self.s.set(data)
            self.app = self.s.sm
            return
        self.opts = shared
        self.o = {k: v for k, v in spec["opts"].items()}
        if fam == "moe" and spec["wrap"]:
            from smt.applications import MOESurrogateModel
            self.app = MOESurrogateModel(print_global=False, **{k: v for k, v in shared.items() if v is not None})
        else:
            self.app = comp.build(spec, data, shared)

    def set(self, data):
        self.data = data
        if self.fam == "mfk":
            self.s.set(data)
            return
        x, y, c, xt, yt = comp.moe_data(self.spec, data)
        if self.spec["how"] == "options" and not self.spec["wrap"]:
            self.app.options["xt"], self.app.options["yt"] = x, y
        else:
            self.app.set_training_values(x, y)
        if c is not None:
            self.app.options["ct"] = c
        if xt is not None:
            self.app.options["xtest"], self.app.options["ytest"] = xt, yt

    def train(self, npseed, fault=None):
        self.npseed = npseed
        np.random.seed(npseed)
        with Spy(fault) as spy:
            try:
                if self.fam == "vfm":
                    self.app.predict_values(U.queries(self.spec, 0, 1))
                else:
                    self.app.train()
                out = U.Out(True)
            except (Exception, KeyboardInterrupt) as e:
                out = U.Out(False, err=type(e).__name__, msg=str(e))
        self.trained = out.ok
        self.spy = spy
        return out

    def laws(self, rec):
        if self.fam == "moe":
            moe = self.app.moe if self.spec["wrap"] else self.app
            return moe_laws(self.app, moe, self.spec, self.o, comp.moe_data(self.spec, self.data), self.spy, rec)
        if self.fam == "vfm":
            return vfm_laws(self.app, self.spec, self.o, comp.vfm_data(self.spec, self.data), self.spy, rec)
        why = kriging.differs(self.spec, self.app, self.s.opts, self.s.arrays(), U.queries(self.spec, "mfk", 4), rec)
        if why:
            return "recombination", why
        return None

    def answers(self, q=0, far=False):
        x = U.queries(self.spec, q, 3, far)
        if self.fam == "mfk":
            kinds = U.requests(self.spec)
        else:
            kinds = comp.requests(self.spec)
        return [(k, U.outcome(U.ask, self.app, k, x.copy())) for k in kinds]


def roomy(s):
    """Whether every cluster of a mixture of experts whose training raised holds points enough to train any expert."""
    moe = s.app.moe if s.spec["wrap"] else s.app
    nx = s.spec["nx"]
    x, y, c, xt, yt = comp.moe_data(s.spec, s.data)
    n = s.o.get("n_clusters", 2)
    if n == 1:
        sizes = [len(x)]
    else:
        try:
            z = moe.cluster.predict(np.c_[x, y if c is None else c])
        except Exception:
            return n <= 2
        sizes = np.bincount(z, minlength=n)
    return min(sizes) * 0.8 >= (nx + 1) * (nx + 2) // 2 + 2


def run(case, rec):
    fam, spec = case["fam"], case["spec"]
    shared = {}
    inst = {}
    for n, op in enumerate(case["ops"]):
        k = op["k"]
        how = "step %d (%s of instance %d) of %s, %s" % (n, op["op"], k, [(o["op"], o["k"]) for o in case["ops"]], {a: b for a, b in spec.items() if a not in ("lim",)})
        rec.op(op["op"])
        if op["op"] == "build":
            o = None
            if fam != "mfk":
                if not op["own"]:
                    # instances of the same settings share every array, list and dictionary the caller has
                    o = shared.get(op["data"])
                    if o is not None:
                        rec.nontrivial = True
                if o is None:
                    o = comp.options(spec, op["data"])
                    if spec.get("alias"):
                        o["options_bridge"] = o["options_LF"]
                    if fam == "moe" and spec["how"] == "set":
                        pass
                    if not op["own"]:
                        shared[op["data"]] = o
            got = U.outcome(Inst, fam, spec, op["data"], o)
            if not got.ok:
                if fam == "moe" and not admitted(spec["opts"]):
                    return None
                return bad("build", "%s: %r" % (how, got), fam=fam)
            inst[k] = got.v
        else:
            s = inst[k]
            if op["op"] in ("train", "fail"):
                if fam == "vfm" and s.trained:
                    continue                     # trains once, on first use
                if s.history:
                    rec.nontrivial = True
                s.history += 1
                out = s.train(op["np"], op if op["op"] == "fail" else None)
                rec.log(op["op"], k, out.ok, out.err)
                rec.state(fam, sorted(spec["opts"].items(), key=str), [(o["op"], o["k"]) for o in case["ops"][:n + 1]], out.ok)
                if s.spy.fired:
                    rec.fault("a part's training fails (%s)" % op["what"])
                    if out.ok:
                        return bad("swallowed", "%s: an error in the training of a part did not reach the caller" % how, fam=fam)
                if out.ok:
                    why = s.laws(rec)
                    if why:
                        return bad(why[0], "%s: %s" % (how, why[1]), fam=fam)
                    s.ans = s.answers()
                elif not s.spy.fired:
                    # legitimate refusals: too many clusters or too few points for an expert
                    rec.probe("refused %s" % out.err)
                    if fam == "moe" and roomy(s):
                        return bad("refused", "%s: %r, though every cluster has points enough for any expert" % (how, out), fam=fam)
                    if fam == "vfm":
                        return bad("refused", "%s: %r" % (how, out), fam=fam)
                    if fam != "moe":
                        fresh = Inst(fam, spec, s.data, comp.options(spec, s.data) if fam != "mfk" else None)
                        if fam == "mfk":
                            fresh.s.opts = dict(s.s.opts)
                        ref = fresh.train(op["np"])
                        if ref.ok:
                            return bad("refused", "%s: %r, a fresh instance trains" % (how, out), fam=fam)
            elif op["op"] == "data":
                if fam == "vfm":
                    continue
                s.set(op["data"])
                s.trained = False
            elif op["op"] == "option":
                s.app.options[op["key"]] = op["val"]
                s.o[op["key"]] = op["val"]
                s.trained = False
            elif op["op"] == "ask" and s.trained:
                for q, a in s.answers(op["q"], op["far"]):
                    rec.log(q, a.ok, a.v if a.ok else a.err)
        for j, t in sorted(inst.items()):
            if t.trained and t.ans is not None and (j != k or op["op"] == "ask"):
                for (q, a), (_, b) in zip(t.ans, t.answers()):
                    if not U.same(a, b, 1e-10):
                        return bad("influence", "%s: request %s to instance %d: %r before, %r now" % (how, q, j, a, b), fam=fam)
    return None
