#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from meta.INFO and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
import meta
NA = {
}
props = [json.loads(l)["id"] for l in open(os.path.join(H, "..", "properties.jsonl"))]
checks = []; na = []
for p in props:
    if p in meta.INFO:
        i = meta.INFO[p]
        checks.append(dict(property=p, quick_cmd="python3 run_check.py %s quick" % p, thorough_cmd="python3 run_check.py %s thorough" % p,
                           technique=i["technique"], level="exploration", level_note=i["note"]))
    else: na.append(dict(property=p, reason=NA.get(p, "check not built yet")))
m = dict(version=1, setup_cmd="bash sim/setup.sh",
         hooks=dict(guard="none", enable="no hooks in /repo: the checks interpose operator new/delete, GMP's allocator, rand, clocks, static-initialisation guards and mutexes at link time, replace the std random engines by a forced include, and preempt through the compiler's basic-block callbacks", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(H, "..", "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError: pass
print(len(checks), "checks,", len(na), "not applicable")
