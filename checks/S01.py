"""Silencing output always restores it."""
import io, os, sys
import numpy as np
from sim import inject, universe as U
from sim.core import bad

TECH = "seeded programs of nested and repeated silenced blocks with writes, redirections, exceptions, interrupts and failing opens, judged against a small model of where each write must go"
LEVEL = "exploration"
N = {"quick": 1800, "thorough": 80000}
RULE = ("a case is a seeded tree of silenced blocks (both silencers, new or reused objects), redirections and writes through print, the stream and (for the descriptor-level silencer) the file descriptors, "
        "with exceptions and interrupts that leave some blocks; non-trivial when a block was left by an exception, nested or entered under a redirection")
REAL = ["smt/utils/silence.py with the process's streams and file descriptors (pointed at scratch files of the run's own child process)", "trainings inside silenced blocks"]
STUB = ["chosen opens of the null device fail by plan"]
STATES = "hash of (tree shape, ways out of blocks, redirections)"
ASSUME = ["blocks end in the reverse order of their beginning", "the file that the descriptor-level silencer redirects to takes all writes (no full disk)", "clean-up code itself is not interrupted a second time"]
EXC = {"val": ValueError, "kbd": KeyboardInterrupt, "exit": SystemExit, "stop": StopIteration, "mem": MemoryError, "gen": GeneratorExit}


def gen_block(r, depth, tier):
    """A list of operations."""
    ops = []
    for _ in range(r.choice([1, 2, 2, 3, 4] if depth < 3 else [1, 2])):
        x = r.random()
        if x < .45 or depth >= 4:
            ops.append({"op": "write", "how": r.choice(["print", "print", "write", "err", "fd1", "fd2", "raw"])})
        elif x < .8:
            kind = r.choice(["S", "S", "S", "S2"])
            b = {"op": "block", "kind": kind, "obj": r.choice(["new", "new", "shared"]) if kind == "S" else "new", "body": gen_block(r, depth + 1, tier), "out": r.choice([None, None, None, "file", "two"]) if kind == "S2" else None}
            y = r.random()
            if y < .12:
                b["cut"] = {"frac": r.random(), "exc": r.choice(["kbd", "mem"])}
            elif y < .2:
                b["noopen"] = r.choice([24, 13, 28])
            ops.append(b)
        elif x < .88:
            ops.append({"op": "redirect", "to": r.choice(["string", "file", "err"]), "body": gen_block(r, depth + 1, tier)})
        elif x < .96:
            ops.append({"op": "raise", "exc": r.choice(sorted(EXC))})
            break
        else:
            ops.append({"op": "train", "seed": r.randint(0, 9), "bad": r.random() < .5})
    return ops


def gen(r, i, tier):
    ops = []
    for _ in range(r.choice([1, 2, 3, 5])):
        ops.append({"op": "try", "body": gen_block(r, 0, tier)})
    return {"ops": ops, "start": r.choice(["plain", "plain", "string", "file"])}


class Sink:
    """A place text can go; `got` reads it."""
    n = 0

    def __init__(self, name, stream=None, path=None):
        self.name, self.stream, self.path, self.want, self.extra = name, stream, path, [], []

    def got(self):
        if self.stream is not None and not self.stream.closed:
            self.stream.flush()
        if self.path:
            with open(self.path) as f:
                return f.read()
        return self.stream.getvalue()


class World:
    """Model: where each of the streams and descriptors points."""

    def __init__(self):
        self.out, self.err = Sink("stdout", path="o.txt"), Sink("stderr", path="e.txt")
        fd = os.open("o.txt", os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        os.dup2(fd, 1)
        os.close(fd)
        fd = os.open("e.txt", os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        os.dup2(fd, 2)
        os.close(fd)
        self.out.stream, self.err.stream = sys.__stdout__, sys.__stderr__
        self.fd1, self.fd2 = self.out, self.err          # None: nowhere
        self.py_out, self.py_err = self.out, self.err
        self.sinks = [self.out, self.err]
        self.n = 0
        self.shared = None
        self.left = 0

    def tag(self):
        self.n += 1
        return "<%d>" % self.n

    def file(self):
        s = Sink("file%d" % len(self.sinks), path="f%d.txt" % len(self.sinks))
        self.sinks.append(s)
        return s


def resolve(w, sink):
    """Where text given to this stream ends up (a stream over descriptor 1 follows the descriptor)."""
    return w.fd1 if sink is w.out else w.fd2 if sink is w.err else sink


class Stop(Exception):
    def __init__(self, v):
        self.v = v


def streams_ok(w, when):
    for name, cur, want in (("stdout", sys.stdout, w.py_out), ("stderr", sys.stderr, w.py_err)):
        if want is not None and cur is not want.stream:
            return bad("not-restored", "%s sys.%s is %r, not the stream in force before" % (when, name, cur), stream=name)
    return None


def write(w, op, rec):
    how, t = op["how"], w.tag()
    if how in ("print", "write"):
        dest = None if w.py_out is None else resolve(w, w.py_out)
        print(t, end="") if how == "print" else sys.stdout.write(t)
    elif how == "err":
        dest = None if w.py_err is None else resolve(w, w.py_err)
        sys.stderr.write(t)
    elif how == "raw":
        sys.__stdout__.write(t)
        dest = w.fd1
    else:
        sys.stdout.flush()
        sys.__stdout__.flush()
        os.write(1 if how == "fd1" else 2, t.encode())
        dest = w.fd1 if how == "fd1" else w.fd2
    if dest is not None:
        dest.want.append(t)
    # what is buffered now must not travel to another place later: the silencer's own duty, except for a plain redirect
    rec.op(how)


def perform(w, ops, rec, depth):
    from smt.utils import silence
    for op in ops:
        k = op["op"]
        if k == "write":
            write(w, op, rec)
        elif k == "raise":
            rec.fault("%s in a block" % op["exc"])
            raise EXC[op["exc"]]("injected")
        elif k == "train":
            from smt.surrogate_models import RBF
            sm = RBF(print_global=True)
            rs = np.random.RandomState(op["seed"])
            if not op["bad"]:
                sm.set_training_values(rs.rand(4, 1), rs.rand(4, 1))
            if w.py_out is None or resolve(w, w.py_out) is None:          # only where its report goes nowhere
                try:
                    sm.train()
                except KeyError:
                    raise ValueError("injected: no data")
        elif k == "redirect":
            old, olderr = w.py_out, w.py_err
            if op["to"] == "string":
                s = Sink("string", stream=io.StringIO())
                w.sinks.append(s)
            elif op["to"] == "file":
                s = w.file()
                s.stream = open(s.path, "w")
            else:
                s = w.err
            prev = sys.stdout
            sys.stdout, w.py_out = s.stream, s
            try:
                perform(w, op["body"], rec, depth + 1)
            finally:
                sys.stdout, w.py_out = prev, old
            rec.probe("redirections")
        elif k == "block":
            block(w, op, rec, depth, silence)


def block(w, op, rec, depth, silence):
    before = (w.py_out, w.py_err, w.fd1, w.fd2)
    if op["kind"] == "S":
        if op["obj"] == "shared":
            w.shared = w.shared or silence.Silence()
            s = w.shared
        else:
            s = silence.Silence()
        inside = (None, w.py_err, w.fd1, w.fd2)
    else:
        if op["out"] == "file":
            a = b = w.file()
        elif op["out"] == "two":
            a, b = w.file(), w.file()
        else:
            a = b = None
        s = silence.Silence2(a.path, b.path) if a else silence.Silence2()
        inside = (w.out, w.err, a, b)
    prev, preverr = sys.stdout, sys.stderr
    sys.stdout.flush()
    what = "%s block at depth %d" % (op["kind"], depth)

    def check(when):
        w.py_out, w.py_err, w.fd1, w.fd2 = before
        if sys.stdout is not prev or sys.stderr is not preverr:
            raise Stop(bad("not-restored", "%s: after %s sys.stdout or sys.stderr is not the stream in force before" % (what, when), how=when))
        if sys.stdout.closed or sys.stderr.closed:
            raise Stop(bad("closed", "%s: after %s a stream in force before the block is closed" % (what, when), how=when))
    site = None
    if "cut" in op:
        rec.op("cut on entry")
        lines = sites(silence, op["kind"]) or [1]
        site = lines[int(op["cut"]["frac"] * len(lines))]
        inj = inject.Interrupt("utils/silence.py", site, 1, EXC[op["cut"]["exc"]]("injected"))
        entered = False
        try:
            with inj:
                s.__enter__()
                entered = True
        except (KeyboardInterrupt, MemoryError):
            pass
        if inj.fired:
            rec.fault("%s on entry" % op["cut"]["exc"])
            if entered:
                raise Stop(bad("interrupt-swallowed", "%s: %s at line %d of silence.py on entry vanished" % (what, op["cut"]["exc"], site)))
            check("an interrupt on entry")
            w.left += 1
            return
        s.__exit__(None, None, None)          # the line is not on this block's way
        check("its end")
        return
    if "noopen" in op:
        rec.fault("open fails on entry")
        e = OSError(op["noopen"], "injected")
        tried = []

        def fail(*a, **k):
            tried.append(a)
            raise e
        silence.open = fail
        try:
            s.__enter__()
            if not tried:          # opened some other way
                s.__exit__(None, None, None)
                check("its end")
                return
            raise Stop(bad("error-lost", "%s: the null device could not be opened, yet the block began" % what))
        except OSError as x:
            if x is not e:
                raise
        finally:
            del silence.open
        check("a failed entry")
        return
    how = "its end"
    try:
        with s:
            w.py_out, w.py_err, w.fd1, w.fd2 = inside
            perform(w, op["body"], rec, depth + 1)
    except Stop:
        raise
    except BaseException as e:
        if not isinstance(e, tuple(EXC.values())):
            raise
        how = type(e).__name__
        w.left += 1
        check(how)
        rec.log("left", how, depth)
        raise
    check(how)
    rec.log("end", depth)
    if depth or how != "its end":
        rec.nontrivial = True


_lines = {}


def sites(silence, kind):
    """Lines of __enter__ executed by a plain entry."""
    if kind not in _lines:
        keep = sys.stdout, sys.stderr
        s = silence.Silence() if kind == "S" else silence.Silence2()
        with inject.Sites() as st:
            s.__enter__()
        s.__exit__(None, None, None)
        assert (sys.stdout, sys.stderr) == keep
        _lines[kind] = [l for f, l, n in st.eligible() if f.endswith("silence.py")]
    return _lines[kind]


def run(case, rec):
    w = World()
    from smt.utils import silence
    if case["start"] != "plain":
        if case["start"] == "string":
            s = Sink("string0", stream=io.StringIO())
            w.sinks.append(s)
        else:
            s = w.file()
            s.stream = open(s.path, "w")
        sys.stdout, w.py_out = s.stream, s
        rec.nontrivial = True
    base = (w.py_out, w.py_err, w.fd1, w.fd2)
    fds = set(os.listdir("/proc/self/fd"))
    try:
        for op in case["ops"]:
            try:
                perform(w, op["body"], rec, 0)
            except Stop:
                raise
            except BaseException as e:
                if not isinstance(e, tuple(EXC.values())) or "injected" not in str(e):
                    raise
                rec.nontrivial = True
            rec.state(shape(op["body"]))
            w.py_out, w.py_err, w.fd1, w.fd2 = base
            v = streams_ok(w, "after everything")
            if v:
                return v
            write(w, {"how": "print"}, rec)
            write(w, {"how": "raw"}, rec)
    except Stop as s:
        return s.v
    sys.__stdout__.flush()
    sys.__stderr__.flush()
    sys.stdout.flush()
    for s in w.sinks:
        got = s.got() if s.path is None or os.path.exists(s.path) else ""
        import re
        tags = re.findall(r"<\d+>", got)
        if sorted(tags) != sorted(s.want) or re.sub(r"<\d+>", "", got):
            return bad("wrong-place", "%s holds %r, should hold %s; program %s" % (s.name, got[:300], s.want, shape([o for p in case["ops"] for o in p["body"]])), sink=s.name[:4])
        rec.log(s.name, len(tags))
    return None


def shape(ops):
    return "".join({"write": "w", "raise": "!", "train": "t"}.get(o["op"]) or "%s(%s)" % ({"block": o.get("kind"), "redirect": ">"}[o["op"]], shape(o["body"])) for o in ops)


def shrink(case):
    import copy
    def paths(ops, p):
        for i, o in enumerate(ops):
            yield p + [i]
            if "body" in o:
                yield from paths(o["body"], p + [i])
    for p in paths(case["ops"], []):
        c = copy.deepcopy(case)
        o = c["ops"]
        for i in p[:-1]:
            o = o[i]["body"]
        del o[p[-1]]
        if c["ops"]:
            yield c
