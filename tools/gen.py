#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NA

def prop(i, p):
    return {"id": i, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None}}

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for i, p in sorted(list(PROPS.items()) + [(k, v[0]) for k, v in NA.items()]):
        assert len(p["title"]) <= 80, (i, len(p["title"]))
        f.write(json.dumps(prop(i, p)) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                 "evidence_file": "evidence/%s.json" % i, "technique": p.get("technique", "deterministic simulation: seeded schedules and injected faults, checked against a reference model"),
                 "level": p.get("level", "exploration"), "level_note": p["note"]} for i, p in sorted(PROPS.items())],
     "not_applicable": [{"property": i, "reason": r} for i, (_, r) in sorted(NA.items())],
     "notes": "No hooks are compiled into /repo: scheduling, locks, heap, clocks and I/O are intercepted by compiler instrumentation (clang -fsanitize=thread call-outs answered by sim/rt.cpp) and symbol renaming in the harness objects."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
