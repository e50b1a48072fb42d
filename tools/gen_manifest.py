#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json
CHECKS = json.load(open('/verif/tools/checks.json'))
props = [json.loads(l) for l in open('/verif/properties.jsonl') if l.strip()]
m = {"version": 1, "setup_cmd": "/verif/setup.sh",
     "hooks": {"guard": "none", "enable": "no hook was needed: the harness uses the crate's public interface only", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    c = CHECKS.get(p['id'])
    if not c:
        m['not_applicable'].append({"property": p['id'], "reason": "check not built yet"})
        continue
    if 'na' in c:
        m['not_applicable'].append({"property": p['id'], "reason": c['na']})
        continue
    m['checks'].append({"property": p['id'], "quick_cmd": f"VERIF_TIER=quick /verif/run.sh {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough /verif/run.sh {p['id']}",
        "technique": c['technique'], "level": c['level'], "level_note": c['note']})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed;', len(m['not_applicable']), 'not')
