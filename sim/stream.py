"""Hostile random sources: what a generator delivers is decided here."""
import random
import numpy as np
from . import seams

KINDS = ("real", "middle", "zero", "almost-one", "lattice", "tiny", "repeats", "mixed")


class Stream:
    """Values in [0, 1) of a hostile kind; permutations and integers stay legal and, in the long run, fair."""

    def __init__(self, kind, seed=0, perm="real"):
        self.kind, self.perm = kind, perm
        self.r = random.Random("stream/%s" % (seed,))
        self.n = {}
        self.last = 0.5

    def unit(self):
        k = self.kind
        if k == "mixed":
            k = self.r.choice(KINDS[1:-1])
        if k == "middle":
            return 0.5
        if k == "zero":
            return 0.0
        if k == "almost-one":
            return 1 - 2.0 ** -53
        if k == "lattice":
            return self.r.randrange(4) / 4
        if k == "tiny":
            return self.r.choice([5e-324, 1e-300, 2.0 ** -53])
        if k == "repeats":
            if self.r.random() < .2:
                self.last = self.r.random()
            return self.last
        return self.r.random()

    def units(self, shape):
        out = np.empty(shape)
        f = out.reshape(-1)
        for i in range(f.size):
            f[i] = self.unit()
        return out

    def draw(self, gen, name, real, a, k):
        self.n[name] = self.n.get(name, 0) + 1
        if self.kind != "real":
            if name == "rand" and not k:
                return self.units(a) if a else self.unit()
            if name in ("random_sample", "random"):
                size = a[0] if a else k.get("size")
                return self.unit() if size is None else self.units(size)
            if name == "uniform":
                lo = a[0] if len(a) > 0 else k.get("low", 0.0)
                hi = a[1] if len(a) > 1 else k.get("high", 1.0)
                size = a[2] if len(a) > 2 else k.get("size")
                if size is None and np.ndim(lo) == 0 and np.ndim(hi) == 0:
                    return lo + (hi - lo) * self.unit()
                return lo + (hi - lo) * self.units(size if size is not None else np.broadcast(lo, hi).shape)
            if name == "randint" and len(a) == 1 and not k and self.r.random() < .7:
                # long runs of the same number, but every number comes up again and again
                return int(self.n[name] // 3) % int(a[0])
        if self.perm != "real" and name == "permutation":
            x = np.arange(a[0]) if np.ndim(a[0]) == 0 else np.array(a[0])
            if self.perm == "reversed" or self.perm == "alternating" and self.n[name] % 2:
                return x[::-1].copy()
            if self.perm == "rotated":
                return np.roll(x, self.n[name])
            return x.copy()
        return real(gen, *a, **k) if gen is not None else real(None, *a, **k)

    def __enter__(self):
        seams.STREAM = self
        return self

    def __exit__(self, *a):
        seams.STREAM = None
