#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after edits)."""
import json, os
root = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=observe, state=state))
def m(name, where): return dict(name=name, where=where)

BOUND = "Exhaustive within stated small-scope bounds on the real code (library entry points plus the built command line program); nothing is claimed about longer lines, other coordinates or other option values. Trusted: the exact integer oracle in mc/geo and the Go toolchain."
TECH = "bounded exhaustive enumeration of inputs x options on the real code (explicit-state, exact integer oracle), replayed through the command line program"
FLOW = ["constdp/simplify.go", "constdp/simple_0.go", "constdp/simple_1.go", "constdp/simple_2.go", "constdp/node_aggregates.go"]

exec(open(os.path.join(root, "props.py")).read())

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        for q in p["files"]: assert os.path.exists(os.path.join("/repo", q)), (p["id"], q)
        a = dict(files=p["files"], mechanism=p["mech"], hook_needed=None)
        if p["observe"]: a["observe_at"] = p["observe"]
        if p["state"]: a["state"] = p["state"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
man = dict(version=1, setup_cmd="bash setup.sh",
    checks=[dict(property=p["id"], quick_cmd="bash check.sh %s quick" % p["id"], thorough_cmd="bash check.sh %s thorough" % p["id"],
                 evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="model_checking", level_note=p["note"]) for p in P],
    not_applicable=[], notes="No hooks in /repo: checks use the exported API, the built program and, for schedules, a mechanically instrumented copy made in a scratch directory on every run. Genuine defects found are fixed by the 'fix:' commits listed in known-findings.txt.")
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(root, "properties.jsonl")): jsonschema.validate(json.loads(l), s)
    print("valid", len(P))
except ImportError: print("written, not validated")
