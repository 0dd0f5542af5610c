"""A surrogate under test together with the shadow that says what it ought to hold.

The shadow stores operation parameters (seeds), never arrays, so nothing the code under test does can
reach it.  `fresh()` builds a new instance with the shadow's options and data.
"""
import copy
import numpy as np
from . import universe as U


class Session:
    def __init__(self, spec, **extra):
        self.spec = spec
        self.extra = extra                 # options such as data_dir, given at construction
        self.opts = dict(spec["opts"])     # current user-set options (encoded)
        self.data = []                     # [kind, level, k, data seed, nt, y seed, y seed factor]
        self.given = {}
        self.sm = self._make()
        self.trained = False
        self.ref = None

    def _make(self):
        o = {k: U.decode(v) for k, v in self.spec["opts"].items()}
        self.given = dict(o)
        o.setdefault("print_global", False)
        o.update(self.extra)
        return U.classes()[self.spec["model"]](**o)

    # ---- what the shadow says
    def arrays(self):
        """Current training data as a list of (kind, level, k, x, y)."""
        out = []
        for kind, lvl, k, seed, nt, yseed in self.data:
            base = _find(U.training(self.spec, seed, nt), kind, lvl, k)
            x = base[3]
            y = base[4] if yseed is None else _newy(self.spec, kind, lvl, k, x, yseed)
            out.append((kind, lvl, k, x, y))
        return out

    def fresh(self, **extra):
        o = {k: U.decode(v) for k, v in self.opts.items()}
        o.setdefault("print_global", False)
        o.update(extra)
        sm = U.classes()[self.spec["model"]](**o)
        U.feed(sm, self.arrays())
        return sm

    # ---- operations
    def set(self, seed, nt=None):
        nt = nt or self.spec["nt"]
        d = U.training(self.spec, seed, nt)
        U.feed(self.sm, d)
        for kind, lvl, k, x, y in d:
            e = [kind, lvl, k, seed, nt, None]
            for i, f in enumerate(self.data):
                if f[:3] == e[:3]:
                    self.data[i] = e
                    break
            else:
                self.data.append(e)

    def update(self, yseed, deriv=False):
        """Replaces the outputs (and derivatives) at the stored inputs."""
        for i, (kind, lvl, k, seed, nt, _) in enumerate(list(self.data)):
            x = _find(U.training(self.spec, seed, nt), kind, lvl, k)[3]
            y = _newy(self.spec, kind, lvl, k, x, yseed)
            if kind == "v":
                self.sm.update_training_values(y, name=lvl)
            else:
                self.sm.update_training_derivatives(y, k, name=lvl)
            self.data[i] = [kind, lvl, k, seed, nt, yseed]

    def option(self, key, val):
        v = U.decode(val)
        self.sm.options[key] = v
        self.given[key] = v
        self.opts[key] = val

    def train(self, npseed):
        o = U.train(self.sm, npseed)
        self.trained = o.ok
        return o

    def altered(self):
        """Name of a user-set option that no longer has the value the user gave it, or None."""
        for k, v in self.opts.items():
            if not eq(self.sm.options[k], U.decode(v)):
                return "%s: set to %r, now %r" % (k, U.decode(v), self.sm.options[k])
            if not eq(self.given[k], U.decode(v)):
                return "%s: the caller's own object changed from %r to %r" % (k, U.decode(v), self.given[k])
        return None

    def probes(self, n=3, seed=0):
        return U.probes(self.spec, seed, n)

    def reference(self, npseed, n=3, seed=0, **extra):
        """(outcome of training a fresh instance, its answers)."""
        st = np.random.get_state()
        f = self.fresh(**extra)
        o = U.train(f, npseed)
        ref = U.Ref(f, self.spec, self.probes(n, seed)) if o.ok else None
        np.random.set_state(st)
        return o, ref


def _find(d, kind, lvl, k):
    for e in d:
        if (e[0], e[1], e[2]) == (kind, lvl, k):
            return e
    raise KeyError((kind, lvl, k))


def _newy(spec, kind, lvl, k, x, yseed):
    fn = U.Fn("y%s" % yseed, spec["nx"], spec["ny"], spec["lim"])
    if kind == "v":
        y = fn.y(x)
        return y if lvl is None else 0.9 * y + 0.1 * fn.u(x).sum(axis=1, keepdims=True)
    return fn.dy(x, k)


def eq(a, b):
    if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
        try:
            x, y = np.asarray(a, float), np.asarray(b, float)
        except (TypeError, ValueError):
            return repr(a) == repr(b)
        return x.shape == y.shape and bool(np.array_equal(x, y, equal_nan=True))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(eq(a[k], b[k]) for k in a)
    return type(a) == type(b) and a == b or a == b
