"""Linear solvers return a solution or report failure, run after run."""
import copy
import numpy as np
import scipy.linalg
import scipy.sparse
import scipy.sparse.linalg as ssl
from sim import universe as U, inject
from sim.session import Session
from sim.core import bad
from checks.H02 import cut, EXC

TECH = "seeded histories of set-ups, solves, failed and interrupted runs on one solver object, each solve judged by its residual, by a small reference iteration and by a fresh object"
LEVEL = "exploration"
N = {"quick": 2250, "thorough": 100000}
RULE = ("a case is a history of 2-9 set-ups, solves, injected failures and interrupts on one solver object with systems of 1-40 unknowns, "
        "or a regularized-spline training whose solver calls fail by plan (then an undisturbed training compared with a fresh instance and with another exact solver); non-trivial when a solve followed another operation")
REAL = ["smt/utils/linear_solvers.py with scipy's factorizations and iterations", "smt/surrogate_models/rmts.py, rmtb.py, rmtc.py"]
STUB = ["chosen calls of scipy.linalg and scipy.sparse.linalg routines made by SMT (fail by plan)", "process-wide numpy random state (reseeded)"]
STATES = "hash of (solver, matrix kind, history position, fault, outcome)"
ASSUME = ["a linear iteration (cg, bicgstab, gmres) is held to a residual only on systems with at most 30 unknowns and condition number at most 1000, where, started from zero, the current tree meets 1e-6 with a wide margin (GMRES: where scipy's own routine, given as many iterations, gets there)",
          "after a failed set-up a solve may still answer for the system set up before, or raise"]
NAMES = ["dense-lu", "dense-chol", "krylov-dense", "lu", "ilu", "krylov", "krylov-lu", "krylov-mg", "gs", "jacobi", "mg"]
EXACT = {"dense-lu", "dense-chol", "lu"}
FAIL = ["lu_factor", "lu_solve", "cholesky", "solve_triangular", "splu", "spilu", "cg", "bicgstab", "gmres"]


def gen_sys(r):
    return {"n": r.choice([1, 2, 3, 5, 8, 13, 20, 30, 40]), "seed": r.randint(0, 10 ** 6), "kind": r.choice(["spd", "spd", "lap", "dom", "ill"]), "scale": r.choice([1., 1., 1e-6, 1e6])}


def gen_opts(r, name):
    o = {}
    if r.random() < .3:
        o["print_init"] = False
    if r.random() < .3:
        o["print_solve"] = False
    if name in ("gs", "jacobi"):
        o.update(damping=r.choice([1., 1., .5, .8]), ilimit=r.choice([0, 1, 3, 10, 30]), interval=r.choice([1, 10]))
    if name.startswith("krylov"):
        o["solver"] = r.choice(["cg", "cg", "bicgstab", "gmres"])
        if r.random() < .2:
            o["ilimit"] = r.choice([1, 3, 200])
        if name == "krylov" and r.random() < .5:
            o["pc"] = r.choice(["ilu", "lu", "gs", "jacobi", "mg"])
    if name == "mg":
        o.update(solver=r.choice(["null", "gs", "jacobi", "krylov"]), mg_cycles=r.choice([0, 0, 1, 3]))
    if name == "ilu":
        pass
    return o


def gen(r, i, tier):
    if r.random() < .06:
        spec = U.gen_spec(r, ["RMTB", "RMTC"])
        spec["opts"]["solver"] = r.choice(["dense-lu", "dense-chol", "krylov-dense", "lu", "krylov", "krylov-lu", "krylov-mg", "mg", "gs", "jacobi", "ilu"])
        spec["opts"]["derivative_solver"] = r.choice(["lu", "krylov-lu", "dense-lu", "dense-chol", "mg"])
        return {"kind": "train", "spec": spec, "data": r.randint(0, 30), "np": r.randint(0, 99), "plan": gen_plan(r)}
    name = r.choice(NAMES)
    ops = [{"op": "setup", "sys": gen_sys(r)}]
    for _ in range(r.choice([1, 2, 3, 5, 8])):
        x = r.random()
        o = {"op": "solve", "b": r.randint(0, 10 ** 6), "sol": r.choice(["new", "new", "own", "strided", "none"]), "rhs": r.choice(["flat", "flat", "strided", "zero"])}
        if x < .3:
            o = {"op": "setup", "sys": gen_sys(r)}
            if r.random() < .35:
                # the caller's own matrix object once more, as it is or with other entries
                o["again"] = r.choice([[1, 0], [1, 0], [2, 0], [.5, 0], [1, .3]])
        if r.random() < .3:
            o["fault"] = {"plan": gen_plan(r)} if r.random() < .5 else {"cut": {"frac": r.random(), "occ": r.choice([0, 0, 1, r.random()]), "exc": r.choice(sorted(EXC)), "np": 0}}
        ops.append(o)
    return {"kind": "alone", "name": name, "opts": gen_opts(r, name), "ops": ops, "active": r.random() < .3}


def gen_plan(r):
    return {"fn": r.choice(FAIL + ["any"] * 6), "at": r.choice([0, 0, 0, 1, 2, 4]), "len": r.choice([1, 1, 2, 10 ** 6]), "exc": r.choice(["lin", "val", "mem", "kbd"])}


class Fail:
    """Fails calls of the inner routines by plan."""
    E = {"lin": np.linalg.LinAlgError, "val": ValueError, "mem": MemoryError, "kbd": KeyboardInterrupt}

    def __init__(self, plan):
        self.plan, self.n, self.fired, self.raised, self.on = plan, 0, 0, None, False
        T = [(scipy.linalg, a, a) for a in FAIL[:4]] + [(ssl, a, a) for a in FAIL[4:]]
        self.nth = inject.NthCall(T, {a: _Any(self, a) for a in FAIL})

    def call(self, name, fn, a, k):
        p = self.plan
        if self.on and p["fn"] in (name, "any"):
            n = self.n
            self.n += 1
            if p["at"] <= n < p["at"] + p["len"]:
                self.fired += 1
                self.raised = self.E[p["exc"]]("injected")
                raise self.raised
        return fn(*a, **k)

    def __enter__(self):
        self.nth.__enter__()
        self.on = True
        return self

    def __exit__(self, *a):
        self.on = False          # a solver object may keep a wrapper it picked up at set-up
        self.nth.__exit__(*a)


class _Any(dict):
    def __init__(self, f, name):
        self.f, self.name = f, name

    def get(self, n, default=None):
        return lambda fn, a, k: self.f.call(self.name, fn, a, k)


class System:
    def __init__(self, s, dense):
        rs = np.random.RandomState(s["seed"])
        n = s["n"]
        if s["kind"] == "lap":
            A = 2 * np.eye(n) - np.eye(n, k=1) - np.eye(n, k=-1)
        elif s["kind"] == "dom":
            A = rs.uniform(-1, 1, (n, n)) * (rs.rand(n, n) < .3)
            A = (A + A.T) / 2
            A[np.diag_indices(n)] = np.sum(np.abs(A), 1) + rs.uniform(.5, 2, n)
        else:
            q = np.linalg.qr(rs.normal(size=(n, n)))[0]
            ev = 10 ** rs.uniform(0, 7 if s["kind"] == "ill" else 2, n)
            A = (q * ev) @ q.T
            A = (A + A.T) / 2
        self.A = A * s["scale"]
        self.n, self.kind = n, s["kind"]
        self.mtx = self.A.copy() if dense else scipy.sparse.csc_matrix(self.A)
        self.cond = np.linalg.cond(self.A)
        # a hierarchy of prolongations for the multigrid solvers
        self.mg = []
        m = n
        while m >= 4 and len(self.mg) < 2:
            c = m // 2
            P = np.zeros((m, c))
            for j in range(m):
                P[j, min(j // 2, c - 1)] = 1. if j % 2 == 0 else .5
                if j % 2 and j // 2 + 1 < c:
                    P[j, j // 2 + 1] = .5
            self.mg.append(scipy.sparse.csc_matrix(P))
            m = c

    def change(self, factor, diag):
        """The same matrix object with other entries."""
        self.A = self.A * factor
        self.A[np.diag_indices(self.n)] *= 1 + diag
        if isinstance(self.mtx, np.ndarray):
            self.mtx[...] = self.A
        else:
            self.mtx.data *= factor
            if diag:
                self.mtx.setdiag(np.diag(self.A))
        self.cond = np.linalg.cond(self.A)
        return self

    def same(self):
        m = self.mtx if isinstance(self.mtx, np.ndarray) else self.mtx.toarray()
        return np.array_equal(m, self.A)


def smooth(kind, w, iters, A, b, x):
    D = np.diag(A)
    for _ in range(iters):
        r = b - A @ x
        x = x + (w * r / D if kind == "jacobi" else scipy.linalg.solve_triangular(np.tril(A, -1) + np.diag(D) / w, r, lower=True))
    return x


def multigrid(A, b, Ps, kind, cycles):
    """Reference multigrid cycle, with the smoothers' default settings."""
    sm = (lambda A, b, x: x) if kind == "null" else (lambda A, b, x: smooth(kind, 1., 10, A, b, x))
    As = [A]
    for P in Ps:
        As.append(P.T @ As[-1] @ P)
    xs, bs = [np.zeros(len(a)) for a in As], [None] * len(As)
    bs[0] = b

    def sweep(pre):
        for l, P in enumerate(Ps):
            if pre:
                xs[l] = sm(As[l], bs[l], xs[l])
            bs[l + 1] = P.T @ (bs[l] - As[l] @ xs[l])
        xs[-1] = np.linalg.solve(As[-1], bs[-1])
        for l in range(len(Ps) - 1, -1, -1):
            xs[l] = sm(As[l], bs[l], xs[l] + Ps[l] @ xs[l + 1])
    sweep(False)
    for _ in range(cycles):
        sweep(True)
    return xs[0]


def make(case):
    from smt.utils.linear_solvers import get_solver
    s = get_solver(case["name"])
    s.options.update(case["opts"])
    return s


def printer(active):
    from smt.utils.printer import Printer
    p = Printer()
    p.active = active
    return p


def setup(s, sysm, case, pr):
    return s._setup(sysm.mtx, pr, mg_matrices=sysm.mg if case["name"] in ("mg", "krylov-mg") or case["opts"].get("pc") == "mg" else [])


def vectors(op, n):
    rs = np.random.RandomState(op["b"])
    b, x = rs.normal(size=n), rs.normal(size=n) * .1
    if op["rhs"] == "zero":
        b[:] = 0
    if op["rhs"] == "strided":
        B = np.zeros((n, 3))
        B[:, 1] = b
        b = B[:, 1]
    if op["sol"] == "new":
        x = np.zeros(n)
    elif op["sol"] == "strided":
        X = np.zeros((n, 2))
        X[:, 0] = x
        x = X[:, 0]
    elif op["sol"] == "none":
        x = None
    return b, x


def alone(case, rec):
    name, o = case["name"], case["opts"]
    dense = name in ("dense-lu",)
    s, pr = make(case), printer(case["active"])
    ready, cand, past = False, [], 0
    for n, op in enumerate(case["ops"]):
        what = "%s %s, step %d of %s" % (name, o, n, [(q["op"], q.get("fault")) for q in case["ops"][:n + 1]])
        if op["op"] == "setup":
            S = cand[-1].change(*op["again"]) if op.get("again") and cand else System(op["sys"], dense)
            fn = lambda: setup(s, S, case, pr)
        else:
            if not cand:
                continue
            S = cand[-1]
            b, x = vectors(op, S.n)
            b0, x0 = b.copy(), None if x is None else x.copy()
            fn = lambda: s._solve(b, x)
        F = op.get("fault")
        err = out = None
        site = None
        if F and "cut" in F:
            # the eligible places, from the same step made with a copy
            t, tp = make(case), printer(case["active"])
            with inject.Sites() as st:
                try:
                    setup(t, S, case, tp)
                    if op["op"] == "solve":
                        t._solve(b.copy(), None if x is None else x.copy())
                except Exception:
                    pass
            site = inject.choose([q for q in st.eligible() if q[0].endswith("linear_solvers.py")], F["cut"]["frac"], F["cut"]["occ"])
        if site:
            fired, err, out = cut(site, F["cut"], fn, rec, name)
        elif F and "plan" in F:
            P = Fail(F["plan"])
            try:
                with P:
                    out = fn()
            except BaseException as e:
                if not isinstance(e, (Exception, KeyboardInterrupt)):
                    raise
                err = e
            fired = P.fired > 0
            if fired:
                rec.fault("%s fails (%s)" % (F["plan"]["fn"], F["plan"]["exc"]), P.fired)
                if err is not P.raised:
                    return bad("error-lost", "%s: an inner routine raised %r, the solver ended with %r" % (what, P.raised, err), solver=name)
        else:
            fired = False
            try:
                out = fn()
            except Exception as e:
                err = e
        rec.op(op["op"])
        rec.state(name, sorted(o), S.kind, n, op["op"], str(F), type(err).__name__)
        if pr.active != case["active"]:
            return bad("printer", "%s left the printer's switch at %r" % (what, pr.active), solver=name)
        if not S.same():
            return bad("argument-changed", "%s changed the matrix" % what, solver=name)
        if err is not None and not fired and (ready or op["op"] == "setup"):
            return bad("spurious-error", "%s (%d unknowns, %s) raised %r" % (what, S.n, S.kind, err), solver=name)
        if op["op"] == "setup":
            if err is None:
                cand, ready = [S], True
            else:
                cand, ready = cand + [S], False          # half set up: either system may answer
            past += 1
            continue
        if not np.array_equal(b, b0):
            return bad("argument-changed", "%s changed the right-hand side" % what, solver=name)
        past += 1
        if err is not None:
            rec.log("raised", type(err).__name__)
            continue
        if out is None or np.shape(out) != (S.n,) or (x is not None and out is not x and not np.array_equal(out, x, equal_nan=True)):
            return bad("wrong-shape", "%s returned %r" % (what, out), solver=name)
        if past > 1:
            rec.nontrivial = True
        rec.log(np.array(out))
        why = None
        for C in cand if not ready else [S]:
            if C.n != S.n:
                continue
            why = judge(case, C, b0, x0, np.array(out), rec)
            if why is None:
                break
        if why and not ready:
            continue        # after a failed set-up nothing is promised but the next set-up
        if why:
            return bad(why[0], "%s (%d unknowns, %s, condition %.1e): %s" % (what, S.n, S.kind, S.cond, why[1]), solver=name)
    return None


def judge(case, S, b, x0, out, rec):
    name, o, A = case["name"], case["opts"], S.A
    # a fresh object answers the same
    t = make(case)
    setup(t, S, case, printer(False))
    ref = t._solve(b.copy(), None if x0 is None else x0.copy())
    if not U.close(out, ref, 1e-9, 1e-300 + 1e-12 * np.max(np.abs(ref))):
        return "history", "it answered %s, a fresh solver %s" % (out[:4], ref[:4])
    start = b if x0 is None else x0
    res = np.linalg.norm(A @ out - b)
    nA = np.linalg.norm(A)
    if name in EXACT or (name == "mg" and not S.mg):
        if not res <= 1e-9 * (nA * np.linalg.norm(out) + np.linalg.norm(b)) + 1e-300:
            return "residual", "residual %g of a system of norm %g" % (res, nA)
        rec.probe("exact solves")
    elif name in ("gs", "jacobi"):
        want = smooth(name, o["damping"], o["ilimit"], A, b, start)
        if np.all(np.isfinite(want)) and np.max(np.abs(want), initial=0) < 1e100 and not U.close(out, want, 1e-6, 1e-6 * np.max(np.abs(want), initial=0) + 1e-12 * np.max(np.abs(start)) + 1e-300):
            return "iteration", "answer %s, the iteration its definition states gives %s" % (out[:4], want[:4])
        rec.probe("stationary solves")
    elif name == "mg":
        if o["solver"] != "krylov":
            want = multigrid(A, b, [p.toarray() for p in S.mg], o["solver"], o["mg_cycles"])
            if np.all(np.isfinite(want)) and np.max(np.abs(want), initial=0) < 1e100 and not U.close(out, want, 1e-6, 1e-6 * np.max(np.abs(want), initial=0) + 1e-300):
                return "iteration", "answer %s, the cycle its definition states gives %s" % (out[:4], want[:4])
            rec.probe("multigrid solves")
    elif name.startswith("krylov"):
        pc = o.get("pc", {"krylov": None, "krylov-dense": None, "krylov-lu": "lu", "krylov-mg": "mg"}[name])
        if o.get("ilimit", 100) >= 100 and S.cond <= 1e3 and S.n <= 30 and pc in (None, "lu") and np.any(b) and x0 is not None and not np.any(x0):
            if not res <= 1e-6 * (nA * np.linalg.norm(out) + np.linalg.norm(b)) and not stalls(o, S, b):
                return "residual", "relative residual %g" % (res / np.linalg.norm(b))
            rec.probe("krylov solves")
    return None


def stalls(o, S, b):
    """Whether scipy's own GMRES, given the same number of iterations, stays away from the solution (it can overshoot past a breakdown)."""
    if o.get("solver") != "gmres":
        return False
    best = [np.inf]

    def see(z):
        best[0] = min(best[0], np.linalg.norm(S.A @ z - b) / np.linalg.norm(b))
    m = min(o.get("ilimit", 100), S.n)
    see(ssl.gmres(S.mtx, b, x0=np.zeros(S.n), tol=1e-15, restart=m, maxiter=-(-o.get("ilimit", 100) // m), callback=see, callback_type="x")[0])
    return best[0] > 1e-8


def trained(case, rec):
    spec = case["spec"]
    s = Session(spec)
    s.set(case["data"])
    P = Fail(case["plan"])
    err = None
    try:
        np.random.seed(case["np"])
        with P, np.errstate(all="ignore"):
            s.sm.train()
    except (Exception, KeyboardInterrupt) as e:
        err = e
    if P.fired:
        rec.fault("training %s fails (%s)" % (case["plan"]["fn"], case["plan"]["exc"]), P.fired)
        rec.nontrivial = True
        if err is not P.raised:
            return bad("error-lost", "%s %s: an inner routine raised %r, training ended with %r" % (spec["model"], spec["opts"]["solver"], P.raised, err), solver=spec["opts"]["solver"])
    s.trained = err is None
    rec.op("disturbed training")
    rec.state("train", spec["model"], spec["opts"]["solver"], str(case["plan"]), type(err).__name__)
    want, ref = s.reference(case["np"])
    got = s.train(case["np"])
    if got.ok != want.ok or got.err != want.err:
        return bad("later-training", "%s %s after %s: %r, a fresh instance: %r" % (spec["model"], s.opts, case["plan"], got, want), solver=spec["opts"]["solver"])
    if not got.ok:
        return bad("spurious-error", "%s %s: %r" % (spec["model"], s.opts, got), solver=spec["opts"]["solver"])
    d = U.compare(s.sm, ref, spec)
    if d:
        return bad("later-training", "%s %s after %s: request %s: %r, a fresh instance: %r" % ((spec["model"], s.opts, case["plan"]) + d), solver=spec["opts"]["solver"])
    sol = spec["opts"]["solver"]
    if sol in ("dense-lu", "dense-chol", "lu", "mg", "krylov-lu"):
        alt = Session(dict(copy.deepcopy(spec), opts=dict(spec["opts"], solver="lu" if sol != "lu" else "dense-lu")))
        alt.set(case["data"])
        if alt.train(case["np"]).ok:
            x = np.array(s.sm.training_points[None][0][0])
            a, b = np.asarray(s.sm.predict_values(x)), np.asarray(alt.sm.predict_values(x))
            rec.probe("solvers compared")
            if not U.close(a, b, 1e-3, 1e-3 * (np.max(np.abs(b)) + 1e-12)):
                return bad("solvers-differ", "%s trained with %s predicts %s, with the other exact solver %s" % (spec["model"], s.opts, a.ravel()[:4], b.ravel()[:4]), solver=sol)
    rec.log(*[o.v for o in ref.ans.values() if o.ok])
    return None


def run(case, rec):
    return (alone if case["kind"] == "alone" else trained)(case, rec)
