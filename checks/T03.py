"""The clock and the printing switches never influence results."""
import copy, io, re, sys
import numpy as np
from sim import universe as U
from sim.clock import SimClock, KINDS
from sim.core import bad
from checks.T02 import life, gen_job, differs, deep

TECH = "seeded lifecycles under simulated clocks (stalled, backwards, jumping, huge) and switched printing; results compared with a steady clock and no printing"
LEVEL = "exploration"
N = {"quick": 540, "thorough": 20000}
RULE = ("a case runs one lifecycle (surrogate, composite, sampler, optimizer, mixed-integer) once with a steady clock and printing off, once with a hostile clock "
        "and printing options set and switched between its steps; non-trivial when the clock was read or something was printed")
REAL = ["all of smt.surrogate_models, smt.applications, smt.sampling_methods, smt.utils.printer"]
STUB = ["clocks (seam on the time module)", "standard output (captured)"]
STATES = "hash of (lifecycle, clock, printing options)"
ASSUME = ["progress reports are recognised by the phrases the printer uses", "the unconditional messages of MOE and the warnings of Kriging are not progress reports"]
FLAGS = ["print_global", "print_training", "print_prediction", "print_problem", "print_solver"]
REPORT = re.compile(r"_{20}|# (eval|training) points|Training|Evaluation|Problem size|Predicting|Time \(sec\)|time/pt|\.\.\.\s*$|Iteration \(num|avg cost|iteration = ", re.M)


def gen(r, i, tier):
    j = gen_job(r)
    if j["k"] == "sampler" and r.random() < .7:
        j = gen_job(r)
    k = j["k"]
    n = 8
    flags = {f: r.random() < .7 for f in FLAGS if r.random() < .6}
    if r.random() < .7:
        flags["print_global"] = True
    toggles = [[s, r.choice(FLAGS), r.random() < .5] for s in range(n) if r.random() < .3]
    return {"job": j, "clock": [r.choice(KINDS[1:]), r.randint(0, 999)], "flags": flags, "ops": toggles, "verbose": r.random() < .7, "off": r.random() < .25}


def passage(case, clock, flags, toggles, verbose, rec=None):
    """The labelled outcomes of one passage and what was printed between them."""
    j = copy.deepcopy(case["job"])
    k = j["k"]
    extra = {}
    if k in ("sm", "mix"):
        extra = dict(flags)
        extra.setdefault("print_global", False)
        if j["spec"].get("model") == "GENN":
            j["spec"]["opts"]["is_print"] = bool(flags.get("print_global")) and verbose
    elif k == "ego":
        extra = {"verbose": verbose}
    box, got, text = {}, [], []
    np.random.seed(j["np"])
    old = sys.stdout
    with clock:
        sys.stdout = out = io.StringIO()
        try:
            it = life(j, extra, box)
            n = 0
            while True:
                for s, f, v in toggles:
                    if s == n and "m" in box and k in ("sm", "mix") and hasattr(box["m"], "options"):
                        box["m"].options[f] = v
                m = box.get("m")
                quiet = k == "sm" and m is not None and not m.options["print_global"] and not j["spec"]["opts"].get("is_print")
                mark = out.tell()
                try:
                    got.append(next(it))
                except StopIteration:
                    break
                piece = out.getvalue()[mark:]
                text.append((n, got[-1][0], piece, quiet))
                n += 1
        finally:
            sys.stdout = old
    return got, text


def run(case, rec):
    j = case["job"]
    name = j["spec"].get("model", j["k"])
    steady = SimClock("steady", 0)
    want, _ = passage(case, steady, {"print_global": False}, [], False)
    c = SimClock(*case["clock"])
    flags = {"print_global": False, **{f: True for f in FLAGS[1:]}} if case["off"] else case["flags"]
    toggles = [t for t in case["ops"] if not case["off"] or t[1] != "print_global"]
    got, text = passage(case, c, flags, toggles, case["verbose"] and not case["off"])
    printed = sum(len(t[2]) for t in text)
    rec.op(name)
    rec.probe("clock readings", c.reads)
    rec.probe("characters printed", printed)
    rec.simtime += c.covered
    if c.reads:
        rec.fault("clock " + case["clock"][0])
    if printed:
        rec.nontrivial = True
    rec.state(name, case["clock"][0], sorted(flags.items()), toggles)
    how = "clock %s, printing %s, switched %s" % (case["clock"][0], flags, toggles)
    if len(got) != len(want):
        return bad("influenced", "%s: %d steps instead of %d; %s" % (name, len(got), len(want), how), job=name)
    for n, (a, b) in enumerate(zip(want, got)):
        rec.log(n, a[0], deep(a[1], b[1]) or "", *([a[1][1]] if isinstance(a[1], tuple) and isinstance(a[1][1], np.ndarray) else []))
        if a[0] == "options" and b[0] == "options":
            a = (a[0], {k: v for k, v in a[1].items() if k not in FLAGS + ["is_print"]})
            b = (b[0], {k: v for k, v in b[1].items() if k not in FLAGS + ["is_print"]})
        d = differs(a, b)
        if d:
            return bad("influenced", "%s, step %d %s: %s; %s" % (name, n, a[0], d, how), job=name)
    for n, label, piece, quiet in text:
        m = REPORT.search(piece)
        if quiet and m:
            return bad("printed", "%s, step %d %s, with printing off: %r" % (name, n, label, piece[max(0, m.start() - 60):m.start() + 120]), job=name)
    return None
