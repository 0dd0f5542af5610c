"""Seams: process-wide dispatchers for the clock and the file system.

They are installed once, before SMT is imported, and delegate to the real function unless a
simulated clock (`CLOCK`) or a simulated disk (`DISK`) is active.  Nothing in /repo is changed.
"""
import builtins, io, os, time

CLOCK = None      # object with .read(name) -> float
DISK = None       # sim.disk.SimDisk
STREAM = None     # object with .draw(generator, method, real, args, kwargs): decides what generators deliver
ENTROPY = None    # random.Random that stands for the operating system's entropy
real = {}

_CLOCKS = ("time", "perf_counter", "monotonic", "process_time")
_OSFUNCS = ("replace", "rename", "remove", "unlink", "mkdir", "rmdir", "stat", "lstat", "listdir",
            "link", "symlink", "truncate", "utime", "chmod", "access", "scandir")


def install():
    if real:
        return
    for n in _CLOCKS:
        real["time." + n] = getattr(time, n)
        setattr(time, n, _clock(n))
        if hasattr(time, n + "_ns"):
            real["time." + n + "_ns"] = getattr(time, n + "_ns")
            setattr(time, n + "_ns", _clock_ns(n))
    real["time.sleep"] = time.sleep
    time.sleep = _sleep
    real["open"] = builtins.open
    builtins.open = _open
    io.open = _open
    real["os.open"] = os.open
    real["os.close"] = os.close
    real["os.fsync"] = os.fsync
    real["os.write"] = os.write
    real["os.fdopen"] = os.fdopen
    os.open, os.close, os.fsync, os.write, os.fdopen = _os_open, _os_close, _os_fsync, _os_write, _os_fdopen
    if hasattr(os, "fdatasync"):
        real["os.fdatasync"] = os.fdatasync
        os.fdatasync = _os_fsync
    for n in _OSFUNCS:
        real["os." + n] = getattr(os, n)
        setattr(os, n, _osfunc(n))


def glob(n):
    import numpy as np
    f = getattr(np.random, n)

    def g(*a, **k):
        s = STREAM
        if s is None:
            return f(*a, **k)
        return s.draw(None, n, lambda self, *b, **c: f(*b, **c), a, k)
    g.__name__ = n
    return g


def install_entropy():
    """Generators made without a seed draw it from ENTROPY instead of the operating system."""
    import numpy as np
    base = np.random.RandomState
    if "RandomState" in real:
        return
    real["RandomState"] = base

    class Meta(type):
        def __instancecheck__(cls, obj):
            return isinstance(obj, base)

        def __subclasscheck__(cls, c):
            return issubclass(c, base)

    class RandomState(base, metaclass=Meta):
        def __init__(self, seed=None):
            e = ENTROPY
            if seed is None and e is not None:
                seed = e.getrandbits(32)
            base.__init__(self, seed)

    def method(n):
        real_m = getattr(base, n)

        def m(self, *a, **k):
            s = STREAM
            if s is None:
                return real_m(self, *a, **k)
            return s.draw(self, n, real_m, a, k)
        m.__name__ = n
        return m
    for n in ("rand", "random_sample", "random", "uniform", "randint", "permutation", "shuffle"):
        setattr(RandomState, n, method(n))
    for n in ("rand", "random_sample", "random", "uniform"):
        setattr(np.random, n, glob(n))
    np.random.RandomState = RandomState
    r = np.random.default_rng
    real["default_rng"] = r

    def default_rng(seed=None):
        e = ENTROPY
        return r(e.getrandbits(64) if seed is None and e is not None else seed)
    np.random.default_rng = default_rng


def _clock(n):
    r = real["time." + n]

    def f():
        c = CLOCK
        return r() if c is None else c.read(n)
    f.__name__ = n
    return f


def _clock_ns(n):
    r = real["time." + n + "_ns"]

    def f():
        c = CLOCK
        return r() if c is None else int(c.read(n) * 1e9)
    return f


def _sleep(t):
    c = CLOCK
    return real["time.sleep"](t) if c is None else c.sleep(t)


def _open(file, mode="r", buffering=-1, *a, **k):
    d = DISK
    if d is not None:
        return d.open(file, mode, buffering, *a, **k)
    return real["open"](file, mode, buffering, *a, **k)


def _os_open(path, flags, mode=0o777, *a, **k):
    d = DISK
    if d is not None:
        return d.os_open(path, flags, mode, *a, **k)
    return real["os.open"](path, flags, mode, *a, **k)


def _os_close(fd):
    d = DISK
    if d is not None:
        return d.os_close(fd)
    return real["os.close"](fd)


def _os_fsync(fd):
    d = DISK
    if d is not None:
        return d.os_fsync(fd)
    return real["os.fsync"](fd)


def _os_write(fd, data):
    d = DISK
    if d is not None:
        return d.os_write(fd, data)
    return real["os.write"](fd, data)


def _os_fdopen(fd, *a, **k):
    d = DISK
    if d is not None:
        return d.os_fdopen(fd, *a, **k)
    return real["os.fdopen"](fd, *a, **k)


def _osfunc(n):
    r = real["os." + n]

    def f(*a, **k):
        d = DISK
        if d is not None:
            return d.osfunc(n, r, a, k)
        return r(*a, **k)
    f.__name__ = n
    f.__wrapped__ = r
    return f


def real_makedirs(d):
    if d and not os.path.isdir(d):
        real_makedirs(os.path.dirname(d))
        real["os.mkdir"](d)
