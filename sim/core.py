"""Runner: seeded cases in forked children, minimisation, replay, evidence, known findings.

A case is a JSON value; a run is a pure function of the case and of the code under test.  A check is
a module `checks.<ID>` with

    N       {"quick": n, "thorough": n}         number of cases of a tier
    gen(r, i, tier) -> case                     r: random.Random of (property, seed, i)
    run(case, rec) -> None | violation          rec: Recorder; violation: bad(cls, detail, **key)
    shrink(case) -> iterable of smaller cases   (optional)
    LEVEL, RULE, REAL, STUB, ASSUME             texts for the evidence
"""
import hashlib, importlib, json, os, random, resource, select, shutil, signal, sys, tempfile, time, traceback
from . import boot

VERIF = boot.VERIF
WALL = float(os.environ.get("VERIF_CASE_WALL", "150"))   # per case, backstop only
CPU = int(os.environ.get("VERIF_CASE_CPU", "60"))
_clock = time.monotonic
_sleep = time.sleep


def bad(cls, detail="", **key):
    return {"class": cls, "detail": str(detail)[:1500], "key": {k: str(v) for k, v in key.items()}}


class Recorder:
    """What a run did: the event log is hashed, never kept."""

    def __init__(self, trace=False):
        self.h = hashlib.sha256()
        self.faults, self.ops, self.probes = {}, {}, {}
        self.states = set()
        self.simtime = 0.0
        self.nontrivial = False
        self.events = 0
        self.trace = [] if trace else None
        self.refined = None       # the same case with its random choices written out

    def log(self, *a):
        self.events += 1
        s = "|".join(_fmt(x) for x in a)
        self.h.update(s.encode() + b"\n")
        if self.trace is not None:
            self.trace.append(s)

    def op(self, name, n=1):
        self.ops[name] = self.ops.get(name, 0) + n

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n
            self.nontrivial = True

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *a):
        self.states.add(hashlib.sha1("|".join(map(str, a)).encode()).hexdigest()[:12])

    def out(self):
        d = dict(digest=self.h.hexdigest()[:24], faults=self.faults, ops=self.ops, probes=self.probes,
                 states=sorted(self.states)[:2000], simtime=self.simtime, nontrivial=self.nontrivial, events=self.events)
        if self.refined is not None:
            d["refined"] = self.refined
        if self.trace is not None:
            d["trace"] = self.trace
        return d


def _fmt(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        return "%s:%s" % (x.shape, hashlib.sha1(np.ascontiguousarray(x).tobytes()).hexdigest()[:10]) if x.dtype != object else "obj"
    if isinstance(x, float):
        return repr(x)
    return str(x)


# ------------------------------------------------------------------ one case in a child process
def _child(mod, case, wfd, scratch, trace):
    resource.setrlimit(resource.RLIMIT_CPU, (CPU, CPU + 5))
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.chdir(scratch)
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    err = os.open(os.path.join(scratch, ".stderr"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(err, 2)
    sys.stdout = sys.__stdout__ = open(1, "w", closefd=False)
    sys.stderr = sys.__stderr__ = open(2, "w", closefd=False)
    import numpy as np
    np.random.seed(12345)
    np.seterr(divide="warn", over="warn", under="ignore", invalid="warn")
    random.seed(12345)
    from . import seams
    seams.ENTROPY = random.Random(12345)
    rec = Recorder(trace)
    res = {}
    cover = _cover() if "VERIF_COVER" in os.environ else None
    try:
        res["violation"] = mod.run(case, rec)
    except BaseException as e:
        sys.settrace(None)
        from . import seams, inject
        seams.CLOCK = seams.DISK = None
        tb = traceback.extract_tb(e.__traceback__)
        inner = [f for f in tb if inject.in_scope(f.filename)]
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if inner:
            res["violation"] = bad("unexpected-error", text, err=type(e).__name__, at=inner[-1].name)
        else:
            res["harness"] = text
    res["rec"] = rec.out()
    if cover is not None:
        with seams.real["open"](os.path.join(os.environ["VERIF_COVER"], "%d" % os.getpid()), "w") as f:
            f.write("\n".join("%s:%d" % c for c in sorted(cover)))
    data = json.dumps(res, default=str).encode()
    from . import seams
    w = seams.real.get("os.write", os.write)
    while data:
        n = w(wfd, data[:1 << 16])
        data = data[n:]
    os._exit(0)


def _cover():
    """Development aid: the lines of SMT code a run reaches (VERIF_COVER names a directory)."""
    from . import inject
    hit = set()
    m = sys.monitoring
    m.use_tool_id(3, "verif")

    def line(code, n):
        if inject.in_scope(code.co_filename):
            hit.add((code.co_filename, n))
        return m.DISABLE
    m.register_callback(3, m.events.LINE, line)
    m.set_events(3, m.events.LINE)
    return hit


def execute(mod, case, base, trace=False):
    """Runs the case in a child; returns its result."""
    scratch = tempfile.mkdtemp(dir=base)
    rfd, wfd = os.pipe()
    t0 = _clock()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        try:
            _child(mod, case, wfd, scratch, trace)
        except BaseException:
            traceback.print_exc()
            os._exit(70)
        os._exit(71)
    os.close(wfd)
    chunks = []
    killed = False
    while True:
        left = WALL - (_clock() - t0)
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            killed = True
            break
        r, _, _ = select.select([rfd], [], [], left)
        if not r:
            continue
        b = os.read(rfd, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(rfd)
    _, status = os.waitpid(pid, 0)
    try:
        with open(os.path.join(scratch, ".stderr"), "rb") as f:
            err = f.read()[-1500:].decode(errors="replace")
    except OSError:
        err = ""
    shutil.rmtree(scratch, ignore_errors=True)
    dt = _clock() - t0
    try:
        res = json.loads(b"".join(chunks).decode())
    except ValueError:
        res = None
    if res is None:
        if killed:
            res = {"violation": bad("stuck", "no answer within %g s" % WALL, how="wall")}
        elif os.WIFSIGNALED(status):
            s = os.WTERMSIG(status)
            if s in (signal.SIGXCPU, signal.SIGKILL) and dt >= 0.5 * CPU:
                res = {"violation": bad("stuck", "no answer within %d s of processor time" % CPU, how="cpu")}
            elif s in (signal.SIGKILL, signal.SIGTERM):
                res = {"harness": "child killed by signal %d after %.1f s: %s" % (s, dt, err)}
            else:
                res = {"violation": bad("process-crash", "signal %d: %s" % (s, err), sig=s)}
        else:
            res = {"harness": "child ended with status %r: %s" % (status, err)}
        res["rec"] = Recorder().out()
    res["t"] = dt
    return res


# ------------------------------------------------------------------ parallel batch
def pool(jobs, fn, workers, stop):
    """Runs fn(job) for every job in forked workers; yields (job number, result) as they end.

    Workers take the next job number from a shared pipe; `stop()` ends the batch early.
    """
    jr, jw = os.pipe()
    os.set_blocking(jw, False)
    procs = []
    for w in range(workers):
        rr, rw = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rr)
                os.close(jw)
                for p, fd in procs:
                    os.close(fd)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                while True:
                    b = os.read(jr, 8)
                    if len(b) < 8:
                        break
                    n = int.from_bytes(b, "little")
                    out = json.dumps([n, fn(n)]).encode()
                    msg = len(out).to_bytes(8, "little") + out
                    while msg:
                        k = os.write(rw, msg)
                        msg = msg[k:]
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(rw)
        procs.append((pid, rr))
    os.close(jr)
    todo = list(jobs)
    todo.reverse()
    bufs = {fd: b"" for _, fd in procs}
    live = set(bufs)
    closed = False
    inflight = 0
    try:
        while live:
            while not closed and todo and inflight < 2 * workers:
                if stop():
                    todo = []
                    break
                os.write(jw, todo.pop().to_bytes(8, "little"))
                inflight += 1
            if not closed and not todo:
                os.close(jw)
                closed = True
            r, _, _ = select.select(list(live), [], [], 1.0)
            for fd in r:
                b = os.read(fd, 1 << 20)
                if not b:
                    live.discard(fd)
                    continue
                bufs[fd] += b
                while len(bufs[fd]) >= 8:
                    n = int.from_bytes(bufs[fd][:8], "little")
                    if len(bufs[fd]) < 8 + n:
                        break
                    out = json.loads(bufs[fd][8:8 + n].decode())
                    bufs[fd] = bufs[fd][8 + n:]
                    inflight -= 1
                    yield out[0], out[1]
    finally:
        if not closed:
            os.close(jw)
        for pid, fd in procs:
            os.close(fd)
        for pid, fd in procs:
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass


# ------------------------------------------------------------------ minimisation
def same_class(a, b):
    return a is not None and b is not None and a["class"] == b["class"] and a.get("key") == b.get("key")


def same_loose(a, b):
    return a is not None and b is not None and a["class"] == b["class"]


def default_shrink(case):
    """Drops chunks of the lists named ops, faults, switches; found anywhere at top level or in 'sched'."""
    def lists(c, path=()):
        for k, v in c.items():
            if k in ("ops", "faults", "switches", "tasks_ops") and isinstance(v, list):
                yield path + (k,)
            elif isinstance(v, dict):
                yield from lists(v, path + (k,))
    for p in list(lists(case)):
        v = case
        for k in p:
            v = v[k]
        n = len(v)
        size = n
        while size >= 1:
            for a in range(0, n, size):
                c = json.loads(json.dumps(case))
                t = c
                for k in p[:-1]:
                    t = t[k]
                t[p[-1]] = v[:a] + v[a + size:]
                yield c
            size //= 2


def minimise(mod, case, viol, base, budget_s):
    t0 = _clock()
    tried = 0
    shr = getattr(mod, "shrink", None)
    progress = True
    seen = set()
    if budget_s:
        r = execute(mod, case, base)
        c = r["rec"].get("refined")
        if c is not None:
            r = execute(mod, c, base)
            tried += 2
            if same_loose(r.get("violation"), viol):
                case, viol = c, r["violation"]
    while progress and _clock() - t0 < budget_s:
        progress = False
        for cand in (shr(case) if shr else default_shrink(case)):
            key = json.dumps(cand, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            if _clock() - t0 > budget_s:
                break
            tried += 1
            r = execute(mod, cand, base)
            if same_loose(r.get("violation"), viol):
                case, viol = cand, r["violation"]
                progress = True
                break
    return case, viol, tried


# ------------------------------------------------------------------ known findings
def known(pid):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return [e for e in json.load(f)["findings"] if e["property"] == pid]
    except FileNotFoundError:
        return []


def is_known(v, entries):
    for e in entries:
        m = e["match"]
        if v["class"] == m.get("class") and all(v.get("key", {}).get(k) == x for k, x in m.get("key", {}).items()):
            return e
    return None


# ------------------------------------------------------------------ a whole check
def scratch_base():
    return tempfile.mkdtemp(prefix="verif-", dir=os.environ.get("VERIF_TMP", "/tmp"))


def case_of(mod, pid, seed, i, tier):
    c = mod.gen(random.Random("%s/%d/%d" % (pid, seed, i)), i, tier)
    c = json.loads(json.dumps(c))
    c["seed"] = [pid, seed, i]
    return c


def run_check(pid, tier, seed, n=None, workers=None, only=None, verbose=False, dump=None):
    mod = importlib.import_module("checks." + pid)
    n = n or mod.N[tier]
    workers = workers or int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    cap = float(os.environ.get("VERIF_WALL", {"quick": 420, "thorough": 3000}[tier]))
    base = scratch_base()
    t0 = _clock()
    tot = dict(faults={}, ops={}, probes={})
    digests, states = set(), set()
    simtime = 0.0
    done = nontriv = events = 0
    viols, harness, knownhits = [], [], {}
    kn = known(pid)
    slow = []
    lines = []
    stopping = [False]

    def job(i):
        return execute(mod, case_of(mod, pid, seed, i, tier), base)

    def stop():
        return stopping[0] or _clock() - t0 > cap

    try:
        # known findings are demonstrated again on every run
        for e in kn:
            r = execute(mod, e["case"], base) if e.get("case") else {}
            v = r.get("violation")
            if v and is_known(v, [e]):
                lines.append("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
        for i, r in pool(only if only is not None else range(n), job, workers, stop):
            done += 1
            rec = r["rec"]
            if dump is not None:
                dump[i] = rec["digest"] + ("!" if r.get("violation") else "")
            for k in tot:
                for a, b in rec[k].items():
                    tot[k][a] = tot[k].get(a, 0) + b
            simtime += rec["simtime"]
            events += rec["events"]
            states.update(rec["states"])
            if rec["nontrivial"]:
                nontriv += 1
                digests.add(rec["digest"])
            slow.append((round(r["t"], 2), i))
            if r.get("harness"):
                harness.append((i, r["harness"]))
                if len(harness) > 20:
                    stopping[0] = True
            v = r.get("violation")
            if v:
                e = is_known(v, kn)
                if e:
                    knownhits[e["what"]] = knownhits.get(e["what"], 0) + 1
                    continue
                viols.append((i, v))
                if verbose:
                    print("case", i, json.dumps(v)[:600], flush=True)
                elif len(viols) >= 6:
                    stopping[0] = True
        # minimise and confirm
        reported = []
        unrepro = []
        viols.sort(key=lambda t: (t[1]["class"] == "stuck", t[0]))
        if not verbose:
            classes = set()
            for i, v in viols:
                if v["class"] in classes or len(reported) >= 2 or len(unrepro) >= 4:
                    continue
                case = case_of(mod, pid, seed, i, tier)
                first = confirm(mod, case, v, base)
                if not first:
                    unrepro.append((i, v))
                    continue
                classes.add(v["class"])
                small, sv, tried = minimise(mod, case, v, base, 0 if v["class"] == "stuck" else float(os.environ.get("VERIF_MINIMISE", 60 if tier == "quick" else 240)))
                path = write_replay(pid, small, sv, case, tried)
                if not fresh(pid, path):
                    path = write_replay(pid, case, v, case, 0)
                    if not fresh(pid, path):
                        unrepro.append((i, v))
                        classes.discard(v["class"])
                        continue
                reported.append((i, sv, path))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    wall = _clock() - t0
    slow.sort(reverse=True)
    samples = []
    for i in range(min(2, n)):
        samples.append(case_of(mod, pid, seed, i, tier))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(digests),
            "rule": mod.RULE,
            "samples": [trim(s) for s in samples],
            "planned_runs": n if only is None else len(only),
            "nontrivial_runs": nontriv,
            "runs_per_hour": int(done / wall * 3600) if wall else 0,
            "seeds": "one seed (property, VERIF_SEED, case number) per run",
            "simulated_time_s": round(simtime, 3),
            "faults_injected": dict(sorted(tot["faults"].items())),
            "operations": dict(sorted(tot["ops"].items())),
            "rare_condition_probes": dict(sorted(tot["probes"].items())),
            "events_logged": events,
            "distinct_states": len(states),
            "states_measure": getattr(mod, "STATES", "hash of (specification class, operation history, fault position) noted by the check"),
            "real_components": mod.REAL,
            "stub_components": mod.STUB,
            "slowest_runs_s": slow[:3],
            "known_finding_hits": knownhits,
            "violations_not_reproduced": [[i, v] for i, v in unrepro],
            "harness_errors": [[i, h[-400:]] for i, h in harness[:5]],
            "workers": workers,
        },
        "assumptions": list(getattr(mod, "ASSUME", [])),
        "wall_s": round(wall, 2),
        "violations": len(reported),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + ".tmp", p)
    for l in lines:
        print(l)
    print("%s %s seed=%d: %d runs in %.1f s, %d distinct non-trivial, faults %s, violations %d, not reproduced %d, harness errors %d"
          % (pid, tier, seed, done, wall, len(digests), json.dumps(tot["faults"]), len(viols), len(unrepro), len(harness)))
    for i, h in harness[:3]:
        sys.stderr.write("HARNESS case %d: %s\n" % (i, h))
    if reported:
        for i, v, path in reported:
            print("  case %d: %s %s" % (i, v["class"], json.dumps(v.get("key"))))
            print("  " + v["detail"].replace("\n", "\n  ")[:1200])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if verbose:
        return 1 if viols else 0
    if harness and len(harness) > 0.02 * max(done, 1):
        return 2
    return 0


def trim(c):
    s = json.dumps(c)
    return c if len(s) < 3000 else s[:3000] + "..."


def confirm(mod, case, v, base):
    for _ in range(2):
        r = execute(mod, case, base)
        if same_loose(r.get("violation"), v):
            return True
    return False


def write_replay(pid, case, v, orig, tried):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (pid, h))
    with open(p, "w") as f:
        json.dump({"property": pid, "violation": v, "case": case, "original_case": orig["seed"], "minimisation_runs": tried,
                   "how": "python3 /verif/run.py %s --replay %s" % (pid, p)}, f, indent=1)
    return p


def fresh(pid, path):
    import subprocess
    env = dict(os.environ)
    env.pop("VERIF_BOOTED", None)
    r = subprocess.run([sys.executable, os.path.join(VERIF, "run.py"), pid, "--replay", path], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode == 1 and b"VIOLATION property=" in r.stdout


def replay(pid, path, trace=False):
    mod = importlib.import_module("checks." + pid)
    with open(path) as f:
        d = json.load(f)
    base = scratch_base()
    try:
        r = execute(mod, d.get("case", d), base, trace)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    if trace:
        for l in r["rec"].get("trace", []):
            print("   ", l)
    v = r.get("violation")
    print("log digest", r["rec"]["digest"])
    if r.get("harness"):
        print(r["harness"])
        return 2
    if v:
        print("class:", v["class"], json.dumps(v.get("key")))
        print(v["detail"])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("held")
    return 0
