#!/usr/bin/env python3
"""Writes MANIFEST.json: the properties that the harness registers are claimed."""
import json, re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
have = set()
for f in glob.glob(root + '/harness/props/*.go'):
    have |= set(re.findall(r'ID:\s*"(P\d\d)"', open(f).read()))
tech = json.load(open(root + '/tools/techniques.json'))
m = {"version": 1,
     "setup_cmd": "./setup.sh",
     "checks": [], "not_applicable": [],
     "notes": "No hooks are needed in /repo: every property is observable at the exported interface. Defects of the base commit that were repaired are the 'fix:' commits of /repo, listed in known_findings.json."}
for p in props:
    i = p['id']
    if i in have and i in tech:
        m["checks"].append({"property": i, "quick_cmd": "./check.sh " + i,
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
            "technique": tech[i][0], "level": tech[i][2] if len(tech[i]) > 2 else "exploration", "level_note": tech[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": tech.get(i, ["", "The check is not built yet."])[1] if i not in have else "The check is not built yet."})
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(root + '/MANIFEST.json', 'a').write('\n')
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
