"""Structure of samples under hostile random streams and histories."""
import numpy as np
from sim import universe as U, comp
from sim.core import bad
from sim.stream import Stream, KINDS

TECH = "seeded hostile random streams (constant, extreme, repeating, lattice values; degenerate permutations) and request histories; the structure of every sample checked"
LEVEL = "exploration"
N = {"quick": 1800, "thorough": 80000}
RULE = ("a case asks one or two generators of a method for several point numbers while every random number comes from a simulated stream, in places mixed "
        "with rejected requests and other samplers; non-trivial when the stream was consulted or a request was rejected")
REAL = ["smt.sampling_methods, smt.applications.mfk.NestedLHS, pyDOE2"]
STUB = ["random streams (seam on numpy's generators)", "entropy of unseeded generators"]
STATES = "hash of (method, criterion, dimension, numbers of points, stream)"
ASSUME = ["streams keep the generators' contracts: values in [0, 1), permutations are permutations, every integer comes up in the long run",
          "the correlation criterion of perfectly correlated designs (few points, degenerate permutations) and maximin criteria of a single point are undefined in pyDOE2 and left out"]


def gen(r, i, tier):
    gens = []
    for _ in range(r.choice([1, 1, 2])):
        s = comp.gen_sampling(r, ("LHS", "LHS", "LHS", "LHS", "FullFactorial", "Random", "NestedLHS"))
        c = s["opts"].get("criterion")
        if s["method"] == "LHS":
            s["opts"].pop("random_state", None)
            u = r.random()
            if u < .4:
                s["opts"]["random_state"] = r.randint(0, 99)
            if c == "ese":
                s["nx"] = min(s["nx"], 3)
                s["lim"] = s["lim"][:s["nx"]]
        gens.append(s)
    ops = []
    for _ in range(r.choice([1, 2, 3])):
        k = r.randrange(len(gens))
        s = gens[k]
        c = s["opts"].get("criterion")
        nts = [2, 3, 4, 6, 9] if c == "ese" else [2, 3, 4] if s["method"] == "NestedLHS" else [2, 3, 5, 8, 13, 40]
        if c not in ("maximin", "centermaximin", "m", "cm", "corr", "correlation"):
            nts = nts + [1]
        ops.append({"op": "ask", "g": k, "nt": r.choice(nts)})
        if c in ("corr", "correlation"):
            ops[-1]["nt"] = r.choice([8, 9, 13])
        if r.random() < .15:
            ops.append({"op": "bad", "g": r.randrange(len(gens)), "nt": r.choice([-3, "x", None])})
    st = {"kind": r.choice(KINDS), "perm": r.choice(["real", "real", "identity", "reversed", "alternating", "rotated"]), "seed": r.randint(0, 10 ** 6)}
    if r.random() < .2:
        st["kind"] = st["perm"] = "real"
    if st["kind"] == "mixed" and any(g["opts"].get("criterion") in ("m", "maximin") for g in gens):
        st["kind"] = "tiny"        # mixed extremes make points of neighbouring slices coincide
    if any(g["opts"].get("criterion") in ("corr", "correlation") for g in gens):
        st["perm"] = "real"
    return {"gens": gens, "ops": ops, "stream": st, "np": r.randint(0, 9)}


def lattice(spec, x, nt):
    """Why x is not one point per slice in every variable, or None."""
    lim = np.array(spec["lim"])
    u = (x - lim[:, 0]) / (lim[:, 1] - lim[:, 0])
    eps = 1e-9 * (1 + np.max(np.abs(lim) / (lim[:, 1:] - lim[:, :1])))
    for k in range(x.shape[1]):
        v = np.sort(u[:, k])
        i = np.arange(nt)
        w = np.where((v < i / nt - eps) | (v > (i + 1) / nt + eps))[0]
        if len(w):
            return "variable %d has no point of its own in slice %d of %d: %s" % (k, w[0], nt, U.short(np.sort(u[:, k])[max(0, w[0] - 1):]))
        if spec["opts"].get("criterion", "c") in ("center", "c", "centermaximin", "cm") and spec["method"] == "LHS":
            if np.any(np.abs(v - (i + .5) / nt) > eps):
                return "variable %d is not centered in its slices" % k
    return None


def structure(spec, x, nt):
    """Why a sample is wrong: (class, detail) or None."""
    m, nx = spec["method"], spec["nx"]
    lim = np.array(spec["lim"])
    w = lim[:, 1] - lim[:, 0]
    if m == "NestedLHS":
        if not isinstance(x, list) or len(x) != spec["nlevel"]:
            return "levels", "%r" % (x,)
        for l, d in enumerate(x):
            n = nt * 2 ** (spec["nlevel"] - 1 - l)
            if np.shape(d) != (n, nx):
                return "shape", "level %d is %s, %d points of %d variables due" % (l, np.shape(d), n, nx)
            if np.any(d < lim[:, 0] - 1e-9 * w) or np.any(d > lim[:, 1] + 1e-9 * w) or not np.all(np.isfinite(d)):
                return "out-of-bounds", "level %d: %s" % (l, U.short(d))
        for l in range(len(x) - 1):
            low = [tuple(p) for p in x[l]]
            for p in x[l + 1]:
                if tuple(p) not in low:
                    return "not-nested", "point %s of level %d is missing from level %d" % (list(p), l + 1, l)
                low.remove(tuple(p))
        why = lattice(spec, x[-1], nt)
        return ("slices", "finest level: " + why) if why else None
    x = np.asarray(x)
    clip = m == "FullFactorial" and spec["opts"].get("clip")
    if x.ndim != 2 or x.shape[1] != nx or (x.shape[0] < nt if clip else x.shape[0] != nt):
        return "shape", "%s, %d points of %d variables due" % (x.shape, nt, nx)
    if not np.all(np.isfinite(x)) or np.any(x < lim[:, 0] - 1e-9 * w) or np.any(x > lim[:, 1] + 1e-9 * w):
        return "out-of-bounds", U.short(x)
    if m == "LHS":
        why = lattice(spec, x, nt)
        if why:
            return "slices", why
    if m == "FullFactorial":
        if len({tuple(p) for p in np.round((x - lim[:, 0]) / w, 9)}) != len(x):
            return "grid", "a point occurs twice"
        if clip:
            n = [len({v for v in np.round((x[:, k] - lim[k, 0]) / w[k], 9)}) for k in range(nx)]
            if np.prod(n) != len(x):
                return "grid", "%d points, %s values" % (len(x), n)
            for k in range(nx):
                v = sorted({v for v in np.round((x[:, k] - lim[k, 0]) / w[k], 9)})
                if not np.allclose(v, np.linspace(0, 1, n[k]), atol=1e-8):
                    return "grid", "variable %d takes the values %s" % (k, v[:6])
    return None


def run(case, rec):
    np.random.seed(case["np"])
    st = case["stream"]
    gens = [comp.generator(g) for g in case["gens"]]
    with Stream(st["kind"], st["seed"], st["perm"]) as S:
        for o in case["ops"]:
            if o["g"] >= len(gens):
                continue
            spec = case["gens"][o["g"]]
            out = U.outcome(gens[o["g"]], o["nt"])
            if o["op"] == "bad":
                rec.fault("rejected request")
                continue
            rec.op(spec["method"])
            if not out.ok:
                return bad("failed", "%s %s, %d points: %r" % (spec["method"], spec["opts"], o["nt"], out), method=spec["method"], err=out.err)
            v = out.v
            rec.log(o["nt"], *(v if isinstance(v, list) else [v]))
            why = structure(spec, v, o["nt"])
            if why:
                return bad(why[0], "%s %s, %d variables, %d points, stream %s/%s: %s" % (
                    spec["method"], spec["opts"], spec["nx"], o["nt"], st["kind"], st["perm"], why[1]), method=spec["method"])
    n = sum(S.n.values())
    rec.probe("random numbers requested", n)
    if n and (st["kind"], st["perm"]) != ("real", "real"):
        rec.fault("stream " + st["kind"] + "/" + st["perm"])
    rec.state([(g["method"], g["nx"], g["opts"].get("criterion")) for g in case["gens"]], [o["nt"] for o in case["ops"]], st["kind"], st["perm"])
    return None
