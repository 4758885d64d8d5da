#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/spec.py and props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
from spec import SPEC
from props import PROPS
TECH = "deterministic simulation with fault injection: seeded search over schedules and fault sequences, reference-model oracle"
NOTE = ("Seeded random exploration of the real headers compiled from /repo's working tree under a simulator that owns thread scheduling, "
        "clocks, I/O, network, signals, allocation and their failures; a clean batch is evidence over the sampled runs, not a proof. "
        "Trusts the simulator's model of Linux calls and sequentially consistent memory.")
checks, na = [], []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for s in SPEC:
        assert len(s["title"]) <= 80, s["title"]
        for x in s["files"]:
            assert os.path.exists("/repo/" + x), x
        f.write(json.dumps(dict(id=s["id"], title=s["title"], statement=s["statement"], quantifier=dict(over=s["over"], text=s["qtext"]),
            why_tests_cant=s["why"], anchors=dict(files=s["files"], mechanism=[dict(name=a, where=b) for a, b in s["mech"]], hook_needed="none"))) + "\n")
        if s["id"] in PROPS:
            checks.append(dict(property=s["id"], quick_cmd="./check.py %s --tier quick" % s["id"], thorough_cmd="./check.py %s --tier thorough" % s["id"],
                technique=TECH, level="exploration", level_note=(s["level_note"] + " " if s["level_note"] else "") + NOTE))
        else:
            na.append(dict(property=s["id"], reason=s["na"] or "No check yet: its simulation is under construction."))
json.dump(dict(version=1, setup_cmd="./check.py --setup", checks=checks, not_applicable=na,
    notes="No hooks in /repo: every seam is a link-time wrapper (--wrap) or compiler instrumentation. Checks build into /verif/build (ignored by git)."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
