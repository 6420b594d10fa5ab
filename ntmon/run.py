import argparse
import importlib
import json
import os
import sys

sys.path.insert(0, "/repo")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--section")
    ap.add_argument("--replay")
    ap.add_argument("--nproc", type=int)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    import netomaton
    if not os.path.realpath(netomaton.__file__).startswith("/repo/"):
        print("netomaton is not the one in /repo: %s" % netomaton.__file__)
        return 3
    from ntmon import core
    module = importlib.import_module("ntmon.checks.%s" % a.property.lower())
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        sec = [s for s in module.SECTIONS if s.name == r["section"]][0]
        case, out = core.run_case(module.PROP, sec, r["index"], r["seed"], r["tier"] == "thorough")
        print(out, case.knowns)
        if out and out[0] == "violation":
            print("VIOLATION property=%s replay=%s" % (module.PROP, a.replay))
        return {None: 0, "violation": 1, "inconclusive": 2}[out and out[0]]
    return core.run_property(module, a.seed, a.tier, a.section, a.nproc, a.v)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
