"""Writes DESIGN.md: hand-written texts below, per-check facts taken from the check modules, planted changes from seeded/."""
import ast, glob, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


HEAD = open(os.path.join(ROOT, "tools", "design_head.md")).read()
TAIL = open(os.path.join(ROOT, "tools", "design_tail.md")).read()
ORACLE = {}
cur = None
for line in open(os.path.join(ROOT, "tools", "design_oracles.md")):
    if line.startswith("## "):
        cur = line[3:].strip()
        ORACLE[cur] = ""
    elif cur:
        ORACLE[cur] += line

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
na = {e["property"]: e["reason"] for e in man["not_applicable"]}
seeded = {}
for m in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json")) + glob.glob(os.path.join(ROOT, "archive", "*", "meta.json"))):
    d = json.load(open(m))
    d["id"] = os.path.basename(os.path.dirname(m))
    seeded.setdefault(d["property"], []).append(d)
caught = json.load(open(os.path.join(ROOT, "tools", "caught.json")))

o = [HEAD.rstrip(), "", "## The properties one by one", ""]
for p in props:
    i = p["id"]
    o.append("### %s — %s" % (i, p["title"]))
    o.append("")
    if i in na:
        o += ["Not applicable: %s." % na[i].rstrip("."), ""]
        continue
    c = consts(os.path.join(ROOT, "checks", i + ".py"))
    o += ["*Method.* %s." % c.get("TECH", "seeded simulated histories").rstrip("."), "",
          "*One run.* %s." % c["RULE"].rstrip("."), "",
          "*Oracle, bounds and what it reaches.* %s" % ORACLE[i].strip(), "",
          "*Real code:* %s. *Stubs:* %s. *States counted by* %s. *Assumptions:* %s." % (
              "; ".join(c["REAL"]), "; ".join(c["STUB"]), c["STATES"], "; ".join(c.get("ASSUME", ["none"]))), "",
          "*Cost:* %d runs quick, %d thorough (seeded search, no bound is exhausted)." % (c["N"]["quick"], c["N"]["thorough"]), ""]
    if seeded.get(i):
        o.append("*Planted changes:* " + ", ".join("`%s`" % d["id"] for d in seeded[i]) + " (table below).")
        o.append("")
o += ["## Planted changes and which checks catch them", "",
      "Each lies in `seeded/<id>` or `archive/<id>` (those not run by vcheck, which keeps it short) with its patch and a demonstration; the checks were run against each when it was made, with larger quick runs than the present ones for the archived ones. \"caught by\" lists the quick checks that exit 1 with it applied.", "",
      "| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for i in sorted(seeded):
    for d in seeded[i]:
        o.append("| %s | %s | %s | %s | %s |" % (d["id"], i, d["what_it_breaks"].replace("|", "/"), str(d["needs"]).replace("|", "/"), caught.get(d["id"], "not run yet")))
o += ["", TAIL.rstrip(), ""]
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(o))
