"""Simulated disk: real files below a scratch root, every operation a numbered fault point.

Durability model (journaling file system without implicit data flush): creations, renames and
removals reach the journal in order; a crash keeps some prefix of them.  File contents written
since the last fsync survive a crash completely, partly (prefix, torn block, zero-filled block) or
not at all, per file.  fsync of a file makes its contents and the journal so far durable.
"""
import errno, io, os, random
from . import seams


class SimCrash(BaseException):
    """The simulated process died here."""


ERR = {"eio": errno.EIO, "enospc": errno.ENOSPC, "eacces": errno.EACCES, "erofs": errno.EROFS,
       "emfile": errno.EMFILE, "enoent": errno.ENOENT, "estale": errno.ESTALE}


class SimDisk:
    def __init__(self, root, cwd=None):
        self.root = os.path.realpath(root)
        self.plan = {}            # op number -> fault kind
        self.kind_plan = {}       # (op class, k-th of that class) -> fault kind
        self.kcount = {}
        self.nops = 0
        self.log = []             # (op, relative path, size)
        self.fired = {}
        self.crashed = False
        self.yield_point = None   # scheduler hook
        self.outside = []         # (op, path) outside the root
        self.dead = set()         # identifiers of simulated processes that were killed
        self.who = None           # () -> identifier of the running simulated process
        self.fds = {}             # fd -> path
        self.names = {}           # path -> inode
        self.content = {}         # inode -> durable bytes
        self.dirty = set()        # inodes with unsynced data
        self.base = {}            # names at last journal commit
        self.journal = []
        self.next_ino = 1
        self._scan()

    # ---- bookkeeping
    def _scan(self):
        self.names, self.content, self.journal = {}, {}, []
        for d, _, fs in seams.real.get("os.walk", os.walk)(self.root):
            for f in fs:
                p = os.path.join(d, f)
                with seams.real["open"](p, "rb") as h:
                    self._ino(p, h.read())
        self.base = dict(self.names)
        self.dirty = set()

    def _ino(self, path, durable=None):
        i = self.next_ino
        self.next_ino += 1
        self.names[path] = i
        self.content[i] = durable
        return i

    def scope(self, path):
        if isinstance(path, int):
            return self.fds.get(path)
        try:
            p = os.path.normpath(os.path.join(os.getcwd(), os.fspath(path)))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        r = self.root
        return p if (p == r or p.startswith(r + os.sep)) else None

    def rel(self, p):
        return os.path.relpath(p, self.root)

    def point(self, op, path, size=0):
        """One numbered operation: yield to the scheduler, then apply the planned fault."""
        if self.crashed:
            raise SimCrash()
        if self.yield_point is not None:
            self.yield_point("disk." + op)
        if self.who is not None and self.who() in self.dead:
            raise SimCrash()
        n = self.nops
        self.nops += 1
        k = self.kcount.get(op, 0)
        self.kcount[op] = k + 1
        self.log.append((op, self.rel(path), size))
        f = self.plan.get(n) or self.kind_plan.get((op, k))
        if f is None:
            return None
        if op != "write":
            if f == "short":
                return None
            if f == "crash_torn":
                f = "crash"
        self.fired[f + ":" + op] = self.fired.get(f + ":" + op, 0) + 1
        if f == "crash":
            self.crashed = True
            raise SimCrash()
        if f == "kill":           # this simulated process alone dies; what it wrote stays
            self.dead.add(self.who())
            raise SimCrash()
        if f in ("short", "crash_torn"):
            return f
        raise OSError(ERR[f], os.strerror(ERR[f]), path)

    # ---- entry points used by seams
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        p = self.scope(file)
        if p is None:
            if not isinstance(file, int):
                self.outside.append(("open:" + mode, os.path.join(os.getcwd(), os.fsdecode(os.fspath(file)))))
            return seams.real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        writing = any(c in mode for c in "wax+")
        if not isinstance(file, int):
            self.point("open_w" if writing else "open_r", p)
        raw_mode = mode.replace("b", "").replace("t", "")
        existed = p in self.names
        fio = io.FileIO(file, raw_mode, closefd=closefd, opener=opener)
        self._opened(p, existed, writing, "w" in mode)
        raw = SimRaw(self, p, fio, writing)
        if "b" in mode and buffering == 0:
            return raw
        if "+" in mode:
            buf = io.BufferedRandom(raw)
        elif writing:
            buf = io.BufferedWriter(raw)
        else:
            buf = io.BufferedReader(raw)
        if "b" in mode:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline)
        t.mode = mode
        return t

    def _opened(self, p, existed, writing, trunc):
        if p not in self.names:
            i = self._ino(p)
            self.journal.append(("create", p, i))
            self.dirty.add(i)
        elif trunc:
            self.dirty.add(self.names[p])

    def os_open(self, path, flags, mode=0o777, **k):
        p = self.scope(path)
        if p is None:
            if not isinstance(path, int):
                self.outside.append(("os.open", os.path.join(os.getcwd(), os.fsdecode(os.fspath(path)))))
            return seams.real["os.open"](path, flags, mode, **k)
        writing = bool(flags & (os.O_WRONLY | os.O_RDWR))
        self.point("open_w" if writing else "open_r", p)
        existed = p in self.names
        fd = seams.real["os.open"](path, flags, mode, **k)
        if not os.path.isdir(p):
            self._opened(p, existed, writing, bool(flags & os.O_TRUNC))
        self.fds[fd] = p
        return fd

    def os_close(self, fd):
        if self.fds.pop(fd, None) is not None and not self.crashed:
            pass
        return seams.real["os.close"](fd)

    def os_write(self, fd, data):
        p = self.fds.get(fd)
        if p is not None:
            if self.point("write", p, len(data)) == "short":
                data = bytes(data)[:max(1, len(data) // 2)]
            self._mark(p)
        return seams.real["os.write"](fd, data)

    def os_fdopen(self, fd, mode="r", buffering=-1, *a, **k):
        if fd in self.fds:
            return self.open(fd, mode, buffering, *a, **k)
        return seams.real["os.fdopen"](fd, mode, buffering, *a, **k)

    def os_fsync(self, fd):
        fd = fd if isinstance(fd, int) else fd.fileno()
        p = self.fds.get(fd)
        if p is None:
            return seams.real["os.fsync"](fd)
        self.point("fsync", p)
        self.base = dict(self.names)
        self.journal = []
        i = self.names.get(p)
        if i is not None and os.path.isfile(p):
            with seams.real["open"](p, "rb") as h:
                self.content[i] = h.read()
            self.dirty.discard(i)

    def _mark(self, p):
        i = self.names.get(p)
        if i is not None:
            self.dirty.add(i)

    def osfunc(self, n, r, a, k):
        ps = [self.scope(x) for x in a[:2] if isinstance(x, (str, bytes, os.PathLike))]
        ps = [p for p in ps if p]
        if not ps:
            if n not in ("stat", "lstat", "access"):
                self.outside.append(("os." + n, repr(a[:1])))
            return r(*a, **k)
        if n in ("stat", "lstat", "access", "listdir", "scandir"):
            if self.crashed:
                raise SimCrash()
            if self.yield_point is not None:
                self.yield_point("disk." + n)
            if self.who is not None and self.who() in self.dead:
                raise SimCrash()
            self.log.append((n, self.rel(ps[0]), 0))
            return r(*a, **k)
        self.point({"replace": "rename", "unlink": "remove"}.get(n, n), ps[-1])
        res = r(*a, **k)
        if n in ("replace", "rename") and len(ps) == 2:
            if ps[0] in self.names:
                self.names[ps[1]] = self.names.pop(ps[0])
                self.journal.append(("rename", ps[0], ps[1]))
        elif n in ("remove", "unlink"):
            if ps[0] in self.names:
                del self.names[ps[0]]
                self.journal.append(("remove", ps[0], None))
        elif n == "link" and len(ps) == 2:
            if ps[0] in self.names:
                self.names[ps[1]] = self.names[ps[0]]
                self.journal.append(("create", ps[1], self.names[ps[0]]))
        return res

    # ---- crash and restart
    def crash_image(self, seed):
        """Files that survive a crash now: {path: bytes}; decided by `seed` alone."""
        rng = random.Random(seed)
        keep = rng.choice([0, len(self.journal), rng.randint(0, len(self.journal))])
        names = dict(self.base)
        for op, a, b in self.journal[:keep]:
            if op == "create":
                names[a] = b
            elif op == "rename":
                if a in names:
                    names[b] = names.pop(a)
            elif op == "remove":
                names.pop(a, None)
        byino = {}
        for p, i in self.names.items():
            byino[i] = p
        out = {}
        kinds = []
        for p in sorted(names):
            i = names[p]
            cur = None
            if i in byino and os.path.isfile(byino[i]):
                with seams.real["open"](byino[i], "rb") as h:
                    cur = h.read()
            dur = self.content.get(i)
            if i not in self.dirty:
                data = dur if dur is not None else (cur or b"")
                kinds.append("kept")
            else:
                cur = cur if cur is not None else (dur or b"")
                kind = rng.choice(["all", "none", "prefix", "zero", "old"])
                if kind == "all":
                    data = cur
                elif kind == "none":
                    data = b""
                elif kind == "prefix":
                    data = cur[:rng.randint(0, len(cur))]
                elif kind == "zero":
                    data = zero_block(cur, rng)
                else:
                    data = dur if dur is not None else b""
                kinds.append(kind)
            out[p] = data
        return out, kinds

    def restart(self, image):
        """Replaces the directory contents by `image` and forgets volatile state."""
        for d, ds, fs in os.walk(self.root):
            for f in fs:
                seams.real["os.unlink"](os.path.join(d, f))
        for p, data in image.items():
            seams.real_makedirs(os.path.dirname(p))
            with seams.real["open"](p, "wb") as h:
                h.write(data)
        self.crashed = False
        self.fds = {}
        self.plan, self.kind_plan = {}, {}
        self._scan()

    def files(self):
        return sorted(p for p in self.names if os.path.isfile(p))


def zero_block(data, rng):
    if not data:
        return data
    size = rng.choice([8, 64, 512, 4096])
    a = rng.randrange(0, len(data)) // size * size
    return data[:a] + b"\0" * min(size, len(data) - a) + data[a + size:]


def damage(data, kind, seed):
    """Corruption of a stored file (bit rot, truncation, ...)."""
    rng = random.Random(seed)
    if kind == "truncate":
        return data[:rng.randrange(0, max(1, len(data)))]
    if kind == "empty":
        return b""
    if kind == "bitflip" and data:
        b = bytearray(data)
        i = rng.randrange(len(b))
        b[i] ^= 1 << rng.randrange(8)
        return bytes(b)
    if kind == "tailflip" and data:          # somewhere in the second half: payload rather than header
        b = bytearray(data)
        i = rng.randrange(len(b) // 2, len(b))
        b[i] ^= 1 << rng.randrange(8)
        return bytes(b)
    if kind == "zero":
        return zero_block(data, rng)
    if kind == "garbage":
        return bytes(rng.randrange(256) for _ in range(len(data)))
    if kind == "append":
        return data + bytes(rng.randrange(256) for _ in range(16))
    return data


class SimRaw(io.RawIOBase):
    def __init__(self, disk, path, fio, writing):
        super().__init__()
        self._d, self._p, self._f, self._w = disk, path, fio, writing
        self._fd = fio.fileno()
        disk.fds[self._fd] = path
        self.name = path
        self.mode = fio.mode

    def readable(self): return self._f.readable()
    def writable(self): return self._f.writable()
    def seekable(self): return self._f.seekable()
    def fileno(self): return self._f.fileno()
    def seek(self, *a): return self._f.seek(*a)
    def tell(self): return self._f.tell()

    def readinto(self, b):
        self._d.point("read", self._p, len(b))
        return self._f.readinto(b)

    def write(self, b):
        d = self._d
        if d.crashed or (d.who is not None and d.who() in d.dead):
            return len(b)          # nothing reaches the disk any more
        b = bytes(b)
        f = d.point("write", self._p, len(b))
        d._mark(self._p)
        if f == "short":
            return self._f.write(b[:max(1, len(b) // 2)])
        if f == "crash_torn":
            self._f.write(b[:len(b) // 2])
            d.crashed = True
            raise SimCrash()
        n = self._f.write(b)
        return n

    def truncate(self, size=None):
        self._d.point("truncate", self._p)
        self._d._mark(self._p)
        return self._f.truncate(size)

    def close(self):
        if not self.closed:
            self._d.fds.pop(self._fd, None)
            try:
                super().close()
            finally:
                self._f.close()
