#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--n N] [--case I] [--replay FILE] [--trace] [--list]"""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import boot

boot.reexec()


def main():
    import argparse
    a = argparse.ArgumentParser()
    a.add_argument("property", nargs="?")
    a.add_argument("--setup", action="store_true", help="build and import only")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a.add_argument("--n", type=int)
    a.add_argument("--case", type=int, action="append")
    a.add_argument("--replay")
    a.add_argument("--trace", action="store_true")
    a.add_argument("--verbose", action="store_true")
    a.add_argument("--workers", type=int)
    a.add_argument("--digests")
    p = a.parse_args()
    boot.build()
    boot.load()
    if p.setup:
        print("ready")
        return 0
    from sim import core
    if p.replay:
        return core.replay(p.property, p.replay, p.trace)
    if p.case and p.trace:
        import importlib, json, shutil
        mod = importlib.import_module("checks." + p.property)
        base = core.scratch_base()
        for i in p.case:
            c = core.case_of(mod, p.property, p.seed, i, p.tier)
            print(json.dumps(c))
            r = core.execute(mod, c, base, True)
            for l in r["rec"].pop("trace", []):
                print("   ", l)
            r["rec"].pop("states")
            print(json.dumps(r, indent=1).replace("\\n", "\n"))
        shutil.rmtree(base, ignore_errors=True)
        return 0
    dump = {} if p.digests else None
    rc = core.run_check(p.property, p.tier, p.seed, n=p.n, workers=p.workers, only=p.case, verbose=p.verbose, dump=dump)
    if p.digests:
        with open(p.digests, "w") as f:
            for i in sorted(dump):
                f.write("%d %s\n" % (i, dump[i]))
    return rc


sys.exit(main())
