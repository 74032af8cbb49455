#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the registered checks (run by hand after adding a check)."""
import json, os, re, glob
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
meta = json.load(open(os.path.join(H, "checks.json")))
written = set(re.findall(r'ID: "(C\d\d)"', "".join(open(f).read() for f in glob.glob(os.path.join(H, "harness/checks/*.go")))))
checks, na = [], []
for p in props:
    i = p["id"]
    m = meta.get(i)
    if m and "technique" in m and i in written:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique=m["technique"], level=m.get("level", "exploration"), level_note=m["note"]))
    else:
        na.append(dict(property=i, reason=(m or {}).get("reason", "not built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh",
               hooks=dict(guard="verif", enable="no hooks were needed: the checks observe the public interfaces of the unmodified tree", source_commits=[]),
               checks=checks, not_applicable=na), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
