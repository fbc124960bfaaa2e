#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below (run by hand after editing)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS = [], []


def prop(pid, title, statement, over, text, why, files, mech, level_note, technique, observe=(), state=()):
    assert len(title) <= 80, title
    PROPS.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                  "anchors": {"files": files, "state": list(state), "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": list(observe), "hook_needed": None}})
    CHECKS.append({"property": pid, "quick_cmd": "bin/check " + pid, "thorough_cmd": "bin/check %s --tier thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": technique, "level": "model_checking", "level_note": level_note})


FIX = "include/eirin/fixed.hpp"
MATH = "include/eirin/math.hpp"
ENUM = "bounded exhaustive enumeration of inputs on the real code against an exact reference model"
TRUST = " Trusts the reference model (128-bit integer arithmetic in the harness), the compiler and the enumeration engine; results that are not representable are not judged."

exec(open(os.path.join(HERE, "bin", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "bin/setup", "checks": CHECKS, "not_applicable": NOT_APPLICABLE,
       "notes": "No hooks in /repo: the checks compile the headers of /repo/include unchanged. Every check rebuilds its harnesses from /repo's working tree into /verif/build/<id>."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties")
