#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks/registry.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "tools"), os.path.join(HERE, "checks")]
import props, registry
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d in props.P:
        assert len(d["title"]) <= 80
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for d in props.P:
    i = d["id"]
    if i in registry.CHECKS:
        _, _, level, tech, note = registry.CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 checks/run.py %s quick" % i,
                           thorough_cmd="python3 checks/run.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=tech, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason=registry.NOT_APPLICABLE.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="sh tools/setup.sh",
         hooks=dict(guard="none", enable="no hooks are needed: the harness links the compiler's crates as they are", source_commits=[]),
         checks=checks, not_applicable=na)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
