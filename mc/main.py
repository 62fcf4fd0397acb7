"""Run one check: python -m mc.main C01 [--tier T] [--replay FILE] [--harness NAME]"""

import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_known(prop):
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return {e["id"]: e for e in json.load(f)["findings"] if e["property"] == prop}


def module_name(prop):
    return "checks." + prop.lower()


def replay(path):
    from mc import engine

    with open(path) as f:
        rec = json.load(f)
    mod = importlib.import_module(module_name(rec["property"]))
    known = set(load_known(rec["property"]))
    ctx, error = engine.run_one(mod.HARNESSES[rec["harness"]], tuple(rec["choices"]), known, rec["property"], rec["tier"], 120)
    for line in ctx.describe():
        print("   ", line)
    if error is None:
        print("REPLAY: the property holds in this execution")
        return 0
    print("REPLAY: %s: %s" % error)
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--harness")
    ap.add_argument("--nproc", type=int, default=int(os.environ.get("QPMC_NPROC", "8")))
    ap.add_argument("--deadline", type=float)
    args = ap.parse_args()
    if args.replay:
        return replay(args.replay)
    from mc import engine

    prop, tier = args.prop, args.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.monotonic()
    mod = importlib.import_module(module_name(prop))
    names = [args.harness] if args.harness else list(mod.HARNESSES)
    if tier != "thorough":
        names = [n for n in names if n not in getattr(mod, "THOROUGH_ONLY", ())]
    known = load_known(prop)
    deadline = args.deadline or (600.0 if tier == "quick" else 5400.0)
    try:
        res = engine.explore(mod, module_name(prop), names, set(known), tier, seed, args.nproc, deadline)
    except ImportError as err:
        # the code under test cannot even be loaded
        print(err)
        print("the check could not be started")
        return 2
    wall = time.monotonic() - t0
    shutil.rmtree(os.path.join(HERE, "replay", prop), ignore_errors=True)
    real = []
    for name, choices, kind, text, desc in res.errors:
        if kind == "diverged":
            real.append((name, choices, kind, text, desc))
            continue
        real.append((name, choices, kind, text, desc))
    # the shortest executions are the easiest to understand
    real.sort(key=lambda e: (len([c for c in e[1] if c]), len(e[1]), sum(e[1])))
    reported = 0
    for i, (name, choices, kind, text, desc) in enumerate(real[:3]):
        os.makedirs(os.path.join(HERE, "replay", prop), exist_ok=True)
        path = os.path.join(HERE, "replay", prop, "v%i.json" % i)
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=tier, harness=name, choices=choices, kind=kind, text=text, execution=desc), f, indent=1)
        again = subprocess.run([sys.executable, "-m", "mc.main", prop, "--replay", path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400, check=False).returncode
        if again == 0 and kind in ("hang", "crash"):
            print("note: %s in %s was not reproduced (%s)" % (kind, name, path))
            continue
        print("harness %s, execution:" % name)
        for line in desc:
            print("    " + line)
        print("  %s: %s" % (kind, text))
        if again == 0:
            print("  (not reproduced in a fresh process: depends on earlier executions in the same process)")
        print("VIOLATION property=%s replay=%s" % (prop, path))
        reported += 1
    if reported and len(real) > 3:
        print("... and %i more failing executions" % (len(real) - 3))
    for fid in sorted(res.findings):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, known[fid]["what"], fid))
    cov = dict(
        states=len(res.states),
        transitions=res.transitions,
        traces_validated_against_impl=res.execs,
        comparisons_with_reference=res.compared,
        exhaustive=bool(res.complete and not reported),
        harnesses={n: dict(executions=p["execs"], states=len(p["states"]), transitions=p["transitions"], comparisons=p["compared"], max_choices=p["maxdepth"]) for n, p in sorted(res.per.items())},
        bounds=getattr(mod, "BOUNDS", {}).get(tier, getattr(mod, "BOUNDS", {}).get("quick", "")),
        known_findings={k: v for k, v in sorted(res.findings.items())},
        samples=[" ".join(s) for s in res.samples[:12]],
    )
    if not cov["samples"]:
        cov["samples"] = ["(all executions: %s)" % ", ".join(names)]
    if not res.complete:
        cov["capped"] = "stopped after %.0f s with unexplored executions in: %s" % (wall, ", ".join(res.capped))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "model_checking"), coverage=cov, assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=reported), f, indent=1)
    if os.environ.get("QPMC_TIMES"):
        for n, p in sorted(res.per.items(), key=lambda e: -e[1]["time"]):
            print("    %-24s %7i executions %8.1f s" % (n, p["execs"], p["time"]))
    print("%s %s: %i executions, %i states, %i transitions, %i comparisons, %s, %.1f s" % (prop, tier, res.execs, len(res.states), res.transitions, res.compared, "complete" if res.complete else "CAPPED", wall))
    return 1 if reported else 0


if __name__ == "__main__":
    sys.exit(main())
