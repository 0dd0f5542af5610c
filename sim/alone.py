"""A computation in a pristine copy of this process: what it gives when nothing else ever ran."""
import os, pickle, struct


def alone(fn, *a):
    """fn(*a) in a forked child; its picklable result, or an exception naming the failure."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = (True, fn(*a))
            except BaseException as e:
                out = (False, "%s: %s" % (type(e).__name__, e))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    ok, v = pickle.loads(data) if data else (False, "no answer")
    if not ok:
        raise RuntimeError("alone: " + v)
    return v


class Later:
    """A process forked now, while nothing has run yet, that computes something later on."""

    def __init__(self):
        a, self.w = os.pipe()
        self.r, b = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.w)
                os.close(self.r)
                with os.fdopen(a, "rb") as f, os.fdopen(b, "wb") as g:
                    while True:
                        n = f.read(8)
                        if len(n) < 8:
                            break
                        fn, args = pickle.loads(f.read(struct.unpack("<q", n)[0]))
                        try:
                            out = pickle.dumps((True, fn(*args)))
                        except BaseException as e:
                            out = pickle.dumps((False, "%s: %s" % (type(e).__name__, e)))
                        g.write(struct.pack("<q", len(out)) + out)
                        g.flush()
            finally:
                os._exit(0)
        os.close(a)
        os.close(b)
        self.f, self.g = os.fdopen(self.w, "wb"), os.fdopen(self.r, "rb")

    def call(self, fn, *a):
        d = pickle.dumps((fn, a))
        self.f.write(struct.pack("<q", len(d)) + d)
        self.f.flush()
        n = self.g.read(8)
        if len(n) < 8:
            raise RuntimeError("later: no answer")
        ok, v = pickle.loads(self.g.read(struct.unpack("<q", n)[0]))
        if not ok:
            raise RuntimeError("later: " + v)
        return v

    def end(self):
        self.f.close()
        self.g.close()
        os.waitpid(self.pid, 0)
