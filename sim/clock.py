"""Simulated clock: each reading advances by what the behaviour says; no real time is read."""
import random
from . import seams

KINDS = ("steady", "stalled", "backwards", "jumpy", "huge", "tiny", "nanish")


class SimClock:
    def __init__(self, kind="steady", seed=0):
        self.kind, self.rng, self.t, self.reads = kind, random.Random(seed), 1.6e9, 0
        self.covered = 0.0

    def read(self, name):
        self.reads += 1
        k, r = self.kind, self.rng
        if k == "steady":
            dt = 1e-3
        elif k == "stalled":
            dt = 0.0
        elif k == "backwards":
            dt = -r.random() * 10
        elif k == "jumpy":
            dt = r.choice([0.0, 1e-6, 1.0, -1.0, 3600.0, -3600.0, 86400.0 * 365, -86400.0 * 365])
        elif k == "huge":
            dt = 1e12
        elif k == "tiny":
            dt = 1e-9
        else:
            dt = r.choice([0.0, 5e8, -5e8])
        self.t += dt
        self.covered += abs(dt)
        return self.t

    def sleep(self, t):
        self.t += max(0.0, float(t))
        self.covered += max(0.0, float(t))

    def __enter__(self):
        self._prev = seams.CLOCK
        seams.CLOCK = self
        return self

    def __exit__(self, *a):
        seams.CLOCK = self._prev
