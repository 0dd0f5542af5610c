"""Training jobs for the cache checks: a specification, a data seed and a small change of the data."""
import copy
import numpy as np
from . import universe as U


def gen_base(r, big=0.06):
    spec = U.gen_spec(r, U.CACHED)
    if spec["model"] in ("RMTC", "RMTB") and r.random() < .6:
        spec["opts"]["save_energy_terms"] = True
    if spec["model"] in ("LS", "IDW") and r.random() < big:
        spec["nt"] = 700                      # arrays beyond any abbreviated representation
        spec["nx"], spec["lim"] = 2, U.limits(r, 2)
        spec["ny"] = min(spec["ny"], 2)
    return {"spec": spec, "data": r.randint(0, 9), "tweak": None}


def related(r, job):
    """A job that resembles `job`: one option, one bound, one datum or the model class differs."""
    j = copy.deepcopy(job)
    spec = j["spec"]
    m = spec["model"]
    u = r.random()
    if u < .35:
        alt = U.gen_spec(r, [m], nx=spec["nx"])
        keys = [k for k in alt["opts"] if k != "xlimits"]
        if keys:
            k = r.choice(keys)
            spec["opts"][k] = alt["opts"][k]
            return j
        u = .6
    if u < .45 and m in ("RMTC", "RMTB"):
        # other bounds, enlarged so that the data stay inside; the data stay the same
        lim = [list(x) for x in spec["opts"]["xlimits"][U.ARR]]
        k = r.randrange(len(lim))
        w = lim[k][1] - lim[k][0]
        lim[k] = [lim[k][0] - r.choice([0, .1, .5]) * w, lim[k][1] + r.choice([.1, .5, 3]) * w]
        spec["opts"]["xlimits"] = U.nd(lim)
        return j
    if u < .55:
        other = {"LS": "QP", "QP": "LS", "RBF": "IDW", "IDW": "RBF", "RMTC": "RMTB", "RMTB": "RMTC"}[m]
        o = U.gen_spec(r, [other], nx=spec["nx"])["opts"] if other not in ("LS", "QP") else {}
        if "xlimits" in spec["opts"]:
            o["xlimits"] = spec["opts"]["xlimits"]
            o["save_energy_terms"] = True
        if other == "RMTB":
            o.pop("derivative_solver", None)
        if other == "QP" and spec["nt"] < (spec["nx"] + 1) * (spec["nx"] + 2) // 2:
            other, o = m, spec["opts"]
        spec["model"], spec["opts"] = other, o
        return j
    if u < .85:
        j["tweak"] = [r.choice(["y", "y", "x"]), r.random(), r.random(), r.choice([.3, .05, 1e-3])]
        return j
    j["data"] = r.randint(0, 9)
    return j


def data(job):
    d = U.training(job["spec"], job["data"])
    t = job.get("tweak")
    if t:
        kind, a, b, amount = t
        out = []
        for e in d:
            e = list(e)
            if e[0] == "v" and e[1] is None:
                x, y = np.array(e[3]), np.array(e[4])
                i = int(a * len(x))
                if kind == "y":
                    k = int(b * y.shape[1])
                    y[i, k] += amount * (np.ptp(y[:, k]) + 1e-3)
                else:
                    k = int(b * x.shape[1])
                    lo, hi = job["spec"]["lim"][k]
                    x[i, k] = min(hi, max(lo, x[i, k] + amount * 0.3 * (hi - lo) * (1 if x[i, k] < (lo + hi) / 2 else -1)))
                e[3], e[4] = x, y
            out.append(tuple(e))
        d = out
    return d


def make(job, **extra):
    sm = U.build(job["spec"], **extra)
    U.feed(sm, data(job))
    return sm


def answers(sm, job, n=3):
    return U.Ref(sm, job["spec"], U.probes(job["spec"], 0, n))


def reference(job):
    """(training outcome, answers) of the job without a cache directory."""
    sm = make(job)
    o = U.train(sm, 7)
    return o, (answers(sm, job) if o.ok else None)


def check(sm, out, ref, job, tol=1e-9):
    """Why a trained (or failed) model differs from the reference, or None."""
    want, ans = ref
    if out.ok != want.ok or out.err != want.err:
        return "training gives %r, without cache %r" % (out, want)
    if out.ok:
        d = U.compare(sm, ans, job["spec"], tol)
        if d:
            return "request %s: %r, without cache %r" % d
    return None
