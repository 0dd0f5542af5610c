"""Writes MANIFEST.json from the check modules present and the reasons below."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
PURE = ("a statement about one pure function of its arguments: no schedule, clock, disk, random stream, fault or history "
        "enters it, so simulated runs would only be plain input sampling; left to other families of technique")
NA = {
    "N01": PURE, "N02": PURE, "N04": PURE, "N05": PURE,
    "N03": "quality of a numerical optimum and exactness of its derivatives: pure numerics of one call; the parts that depend on faults "
           "(an attempt that fails, bounds, completeness of the returned model) are claimed under K01",
}
TECH = {}
checks = []
for p in ids:
    f = os.path.join(V, "checks", p + ".py")
    if not os.path.exists(f):
        NA.setdefault(p, "not claimed yet: its simulation is under construction")
        continue
    src = open(f).read()
    tech = re.search(r'^TECH = "(.*)"', src, re.M)
    note = re.search(r'^NOTE = "(.*)"', src, re.M)
    checks.append({"property": p, "quick_cmd": "./run.py %s --tier quick" % p, "thorough_cmd": "./run.py %s --tier thorough" % p,
                   "technique": "deterministic simulation: " + (tech.group(1) if tech else "seeded histories and faults against a fresh-instance reference"),
                   "level": "exploration",
                   "level_note": (note.group(1) if note else "seeded search over generated runs; no claim beyond the runs made, counted in the evidence file")})
m = {"version": 1, "setup_cmd": "./run.py --setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": NA[p]} for p in ids if p not in {c["property"] for c in checks}]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in m["not_applicable"]])
