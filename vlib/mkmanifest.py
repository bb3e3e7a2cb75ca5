"""Writes MANIFEST.json from the table of checks (python3 -m vlib.mkmanifest)."""
import json, os
from . import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for pid in ids:
    if pid in props.P:
        p = props.P[pid]
        checks.append(dict(property=pid, quick_cmd="python3 check.py " + pid, thorough_cmd="python3 check.py %s --thorough" % pid,
                           evidence_file="evidence/%s.json" % pid, technique=p["technique"], level="exploration", level_note=p["note"]))
na = [dict(property=i, reason=props.NOT_APPLICABLE.get(i, "check not built yet")) for i in ids if i not in props.P]
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the monitors observe the unmodified sources through their public API, compiler instrumentation and replaced runtimes (OpenMP, allocator, thread-sanitizer callbacks) that live in /verif/src/rt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
