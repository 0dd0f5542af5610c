"""Composite models (mixture of experts, variable fidelity) and sampling methods under simulation."""
import numpy as np
from . import universe as U


# ------------------------------------------------------------------ composite models
def gen_spec(r, models=("MOE", "MOE", "VFM")):
    m = r.choice(list(models))
    nx = r.choice([1, 1, 2])
    s = {"model": m, "nx": nx, "ny": 1, "lim": U.limits(r, nx, ("unit", "wide")), "opts": {}}
    o = s["opts"]
    if m == "MOE":
        s["nt"] = r.choice([22, 30, 36])
        o["n_clusters"] = r.choice([1, 2, 2, 3])
        o["smooth_recombination"] = r.random() < .6
        if o["smooth_recombination"] and r.random() < .25:
            o["heaviside_optimization"] = True
        if r.random() < .35:
            o["variances_support"] = True
            o["allow"] = r.sample(["KRG", "KPLS", "KPLSK"], r.choice([1, 2]))
        else:
            o["allow"] = r.sample(["KRG", "LS", "QP", "RBF", "IDW", "KPLS"], r.choice([2, 3, 4]))
            if r.random() < .3:
                o["deny"] = [r.choice(["LS", "RBF", "KRG"])]
                if set(o["allow"]) <= set(o["deny"]):
                    del o["deny"]
        s["ct"] = r.random() < .2
        s["test"] = r.random() < .3
        s["how"] = r.choice(["options", "set"])
    else:
        s["nt"] = r.randint(6, 9)
        good = ["KRG", "LS", "QP", "RBF", "IDW", "KPLS", "KPLSK"]
        for w in ("LF", "bridge"):
            n = r.choice(good + ["RMTC", "GEKPLS"])
            oo = {}
            if n == "RMTC":
                oo = {"xlimits": U.nd(s["lim"]), "num_elements": 3, "print_global": False}
                if r.random() < .5:
                    oo["deriv"] = True
            elif n == "GEKPLS":
                oo = {"xlimits": U.nd(s["lim"]), "extra_points": r.choice([0, 1]) if nx > 1 else 0, "print_global": False,
                      "n_comp": 1, "deriv": True}
            elif n in ("KRG", "KPLS", "KPLSK"):
                oo = {"print_global": False}
                if r.random() < .5:
                    oo["theta0"] = [r.choice([.01, .5])]
            else:
                oo = {"print_global": False}
            if "deriv" not in oo and r.random() < .3:
                oo["deriv"] = False
            o["name_model_" + w] = n
            o["options_" + w] = oo
        o["type_bridge"] = r.choice(["Additive", "Multiplicative"])
    return s


def moe_data(spec, seed):
    """(x, y, c, xtest, ytest): two regimes, so that clusters mean something."""
    x = U.points("moe/%s" % seed, spec["nt"], spec["nx"], spec["lim"], 0.0)
    f, g = U.Fn("%s/a" % seed, spec["nx"], 1, spec["lim"]), U.Fn("%s/b" % seed, spec["nx"], 1, spec["lim"])

    def y(p):
        w = 1 / (1 + np.exp(-12 * (f.u(p)[:, :1] - .5)))
        return (1 - w) * f.y(p) / f.scale + w * (3 + g.y(p) / g.scale)
    xt = U.points("moet/%s" % seed, 6, spec["nx"], spec["lim"], 0.05)
    return x, y(x), (2 * y(x) + 1 if spec.get("ct") else None), (xt if spec.get("test") else None), (y(xt) if spec.get("test") else None)


def vfm_data(spec, seed):
    fl = U.Fn("%s/l" % seed, spec["nx"], 1, spec["lim"])
    fh = U.Fn("%s/h" % seed, spec["nx"], 1, spec["lim"])
    xl = U.points("vl/%s" % seed, spec["nt"] + 5, spec["nx"], spec["lim"], 0.0)
    xh = U.points("vh/%s" % seed, spec["nt"], spec["nx"], spec["lim"], 0.02)
    yl = lambda x: 4 + fl.y(x) / fl.scale
    yh = lambda x: 3 + fl.y(x) / fl.scale + .5 * fh.y(x) / fh.scale
    dl = lambda x: np.hstack([fl.dy(x, k) / fl.scale for k in range(spec["nx"])])
    dh = lambda x: dl(x) + .5 * np.hstack([fh.dy(x, k) / fh.scale for k in range(spec["nx"])])
    return xl, yl(xl), xh, yh(xh), dl(xl), dh(xh)


def options(spec, seed):
    o = {k: U.decode(v) for k, v in spec["opts"].items()}
    if spec["model"] == "MOE":
        x, y, c, xt, yt = moe_data(spec, seed)
        if spec["how"] == "options":
            o.update(xt=x, yt=y)
        if c is not None:
            o["ct"] = c
        if xt is not None:
            o.update(xtest=xt, ytest=yt)
    else:
        xl, yl, xh, yh, dl, dh = vfm_data(spec, seed)
        o.update(X_LF=xl, y_LF=yl, X_HF=xh, y_HF=yh, dy_LF=dl, dy_HF=dh)
    return o


def build(spec, seed, opts=None):
    from smt.applications import MOE, VFM
    o = opts if opts is not None else options(spec, seed)
    a = {"MOE": MOE, "VFM": VFM}[spec["model"]](**o)
    if spec["model"] == "MOE" and spec["how"] == "set":
        x, y = moe_data(spec, seed)[:2]
        a.set_training_values(x, y)
    return a


def train(app, spec, npseed=7):
    np.random.seed(npseed)
    if spec["model"] == "MOE":
        return U.outcome(app.train)
    return U.outcome(app.predict_values, U.queries(spec, 0, 1))


def requests(spec):
    if spec["model"] == "MOE":
        return ["v", "s"] if spec["opts"].get("variances_support") else ["v"]
    return ["v"] + ["d%d" % k for k in range(spec["nx"])]


def work(spec, seed):
    a = build(spec, seed)
    out = [train(a, spec)]
    if out[0].ok:
        for q in requests(spec):
            out.append(U.outcome(U.ask, a, q, U.queries(spec, 0, 3)))
    return out


# ------------------------------------------------------------------ sampling
CRIT = ["center", "maximin", "centermaximin", "correlation", "c", "m", "cm", "corr", "ese", "ese"]


def gen_sampling(r, methods=("LHS", "LHS", "FullFactorial", "Random", "NestedLHS")):
    m = r.choice(list(methods))
    nx = r.choice([1, 2, 2, 3, 4])
    lim = U.limits(r, nx, ("unit", "wide", "big", "small"))
    if r.random() < .5:
        lim = U.nd(lim) if all(float(a) == a for p in lim for a in p) else lim
    s = {"method": m, "nx": nx, "lim": [list(map(float, p)) for p in (lim[U.ARR] if isinstance(lim, dict) else lim)], "opts": {}}
    s["nt"] = r.choice([2, 3, 5, 8, 11, 17])
    o = s["opts"]
    if m == "LHS":
        o["criterion"] = r.choice(CRIT)
        if o["criterion"] in ("correlation", "corr", "ese"):
            s["nt"] = min(s["nt"], 11)
        if o["criterion"] in ("correlation", "corr") and nx == 1:
            o["criterion"] = "center"
        if r.random() < .8:
            o["random_state"] = r.randint(0, 50)
    elif m == "FullFactorial":
        if r.random() < .5:
            w = [r.choice([.2, 1.0, 3.0]) for _ in range(nx)]
            o["weights"] = U.nd(w) if r.random() < .5 else w
        if r.random() < .4:
            o["clip"] = True
    elif m == "NestedLHS":
        s["nlevel"] = r.choice([1, 2, 3])
        s["nt"] = r.choice([2, 3, 4])
        nx = s["nx"] = min(nx, 2)
        s["lim"] = s["lim"][:nx]
    return s


def generator(spec, **extra):
    from smt.sampling_methods import LHS, FullFactorial, Random
    from smt.applications.mfk import NestedLHS
    o = {k: U.decode(v) for k, v in spec["opts"].items()}
    o.update(extra)
    lim = np.array(spec["lim"], float)
    if spec["method"] == "NestedLHS":
        return NestedLHS(spec["nlevel"], lim, **o)
    return {"LHS": LHS, "FullFactorial": FullFactorial, "Random": Random}[spec["method"]](xlimits=lim, **o)


def sample(spec, **extra):
    x = generator(spec, **extra)(spec["nt"])
    return np.vstack(x) if isinstance(x, list) else x
