"""Interrupts at an arbitrary instant: sys.settrace decides where an exception arrives.

`sites(fn)` runs fn once and lists the executed source lines of SMT code (each with its number of
executions).  `Interrupt` raises a given exception when a chosen execution of a chosen line is about
to run.  Lines inside clean-up code (finally, except, __exit__, code after the yield of a context
manager) are left out: Python itself gives no protection to clean-up code against a second
interruption.
"""
import ast, os, sys, random
from . import boot

_SMT = os.path.join(os.path.realpath(boot.REPO), "smt") + os.sep
_cleanup = {}
_scope = {}


def in_scope(filename):
    r = _scope.get(filename)
    if r is None:
        f = os.path.realpath(filename)
        r = f.startswith(_SMT) and "/tests/" not in f and f.endswith(".py")
        _scope[filename] = r
    return r


def cleanup_lines(filename):
    s = _cleanup.get(filename)
    if s is not None:
        return s
    s = set()
    from . import seams
    op = seams.real.get("open", open)
    try:
        with op(filename, "r", encoding="utf-8") as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError):
        tree = None

    def mark(nodes):
        for n in nodes:
            for l in range(n.lineno, (n.end_lineno or n.lineno) + 1):
                s.add(l)
    if tree is not None:
        for n in ast.walk(tree):
            if isinstance(n, ast.Try):
                mark(n.finalbody)
                for h in n.handlers:
                    mark([h])
            elif isinstance(n, ast.FunctionDef):
                if n.name in ("__exit__", "__del__", "close"):
                    mark([n])
                elif any("contextmanager" in ast.dump(d) for d in n.decorator_list):
                    ys = [y.lineno for y in ast.walk(n) if isinstance(y, (ast.Yield, ast.YieldFrom))]
                    if ys:
                        for l in range(min(ys) + 1, (n.end_lineno or n.lineno) + 1):
                            s.add(l)
    _cleanup[filename] = s
    return s


class Sites:
    """Counts executions of each line of SMT code while active."""

    def __init__(self):
        self.hits = {}

    def _global(self, frame, event, arg):
        if not in_scope(frame.f_code.co_filename):
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == "line":
            k = (frame.f_code.co_filename, frame.f_lineno)
            self.hits[k] = self.hits.get(k, 0) + 1
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)

    def eligible(self):
        out = []
        for (f, l), n in self.hits.items():
            if l not in cleanup_lines(f):
                out.append((os.path.relpath(os.path.realpath(f), _SMT), l, n))
        out.sort()
        return out


class Interrupt:
    """Raises `exc` when the `occ`-th execution of line (file, line) is about to start."""

    def __init__(self, file, line, occ, exc):
        self.file = os.path.join(_SMT, file)
        self.line, self.occ, self.exc = line, occ, exc
        self.fired = False
        self.stack = None
        self.n = 0

    def _global(self, frame, event, arg):
        c = frame.f_code
        if not in_scope(c.co_filename) or os.path.realpath(c.co_filename) != self.file:
            return None
        if not (c.co_firstlineno <= self.line):
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == "line" and frame.f_lineno == self.line and not self.fired:
            self.n += 1
            if self.n == self.occ:
                # an interrupt that lands while clean-up code up the stack runs is not injected
                f = frame
                names = []
                while f is not None:
                    if in_scope(f.f_code.co_filename):
                        if f is not frame and f.f_lineno in cleanup_lines(f.f_code.co_filename):
                            return self._local
                        names.append(f.f_code.co_name)
                    f = f.f_back
                self.fired = True
                self.stack = names
                raise self.exc
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


def choose(sites, frac, occ):
    """Deterministic choice of a site: frac in [0,1) picks the line, occ in [0,1] the execution."""
    if not sites:
        return None
    f, l, n = sites[int(frac * len(sites)) % len(sites)]
    return f, l, 1 + int(round(occ * (n - 1)))


class StepLimit(BaseException):
    """More lines of SMT code executed than the budget allows."""


class Budget:
    """Bounded liveness: raises StepLimit after `limit` executed lines of SMT code."""

    def __init__(self, limit):
        self.limit, self.n = limit, 0

    def _global(self, frame, event, arg):
        return self._local if in_scope(frame.f_code.co_filename) else None

    def _local(self, frame, event, arg):
        self.n += 1
        if self.n > self.limit:
            raise StepLimit("%d lines" % self.limit)
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


class NthCall:
    """Replaces module attributes by wrappers that fail on chosen calls made from SMT code.

    targets: list of (module, attribute); plan: {name: {call number: exception factory}}.
    """

    def __init__(self, targets, plan, only_smt=True):
        self.targets, self.plan = targets, plan
        self.count, self.fired = {}, {}
        self.saved = []
        self.only_smt = only_smt

    def _wrap(self, name, fn):
        def w(*a, **k):
            fr = sys._getframe(1)
            if self.only_smt and not in_scope(fr.f_code.co_filename):
                return fn(*a, **k)
            n = self.count.get(name, 0)
            self.count[name] = n + 1
            act = self.plan.get(name, {}).get(n)
            if act is None:
                return fn(*a, **k)
            self.fired[name] = self.fired.get(name, 0) + 1
            return act(fn, a, k)
        w.__name__ = getattr(fn, "__name__", name)
        return w

    def __enter__(self):
        for mod, attr, name in self.targets:
            fn = getattr(mod, attr)
            w = self._wrap(name, fn)
            self.saved.append((mod, attr, fn))
            setattr(mod, attr, w)
            for m in [m for n, m in sorted(sys.modules.items()) if n.split(".")[0] == "smt" and m is not None]:
                for a, v in list(vars(m).items()):     # `from scipy.optimize import minimize`
                    if v is fn and not (m is mod and a == attr):
                        self.saved.append((m, a, fn))
                        setattr(m, a, w)
        return self

    def __exit__(self, *a):
        for mod, attr, fn in reversed(self.saved):
            setattr(mod, attr, fn)
        self.saved = []
