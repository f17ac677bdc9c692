#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, sys
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe_at, state=None, hook=None):
    a = {"files": files, "mechanism": mechanism, "observe_at": observe_at, "hook_needed": hook}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
exec(open(__file__.replace("props.py", "props_def.py")).read())
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
