"""Writes MANIFEST.json from properties.jsonl and the check modules that exist"""

import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {
    "default": "bounded exhaustive enumeration of executions of the real code against a reference model",
    "C07": "explicit-state search over operation histories of the real code in lockstep with a reference model",
    "C10": "exhaustive exploration of chunk orders and crash points of the real writing protocol",
    "C14": "explicit-state search over switch and evaluation histories of the real code against a reference model",
    "C16": "exhaustive exploration of partitions, orders and merge trees of partial results on the real code",
    "C18": "stateless model checking of the real code: all thread schedules up to a preemption bound",
    "C19": "exhaustive enumeration of registration and use histories on the real registry",
}

NOTE = "Every execution of the stated bounded space is run on the real code (imported from /repo) and compared with the reference of mc/ref.py or of the check; holds within the bounds listed in the evidence; assumes the reference states the documented behaviour and numpy/scipy/h5py are right."


def const(path, name):
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", None) == name:
            return ast.literal_eval(node.value)
    return None


def main():
    checks, missing = [], []
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        pid = json.loads(line)["id"]
        path = os.path.join(ROOT, "checks", pid.lower() + ".py")
        if not os.path.exists(path):
            missing.append(dict(property=pid, reason="check not built yet"))
            continue
        checks.append(
            dict(
                property=pid,
                quick_cmd="bin/check %s --tier quick" % pid,
                thorough_cmd="bin/check %s --tier thorough" % pid,
                technique=TECH.get(pid, TECH["default"]),
                level=const(path, "LEVEL"),
                level_note=const(path, "NOTE") or NOTE,
            )
        )
    man = dict(
        version=1,
        setup_cmd="true",
        hooks=dict(guard="none", enable="no hooks: the checks import the unmodified package from /repo/src", source_commits=[]),
        checks=checks,
        not_applicable=missing,
        notes="known defects: known_findings.json; design: DESIGN.md",
    )
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
