#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
LV = json.load(open(V + '/tools/levels.json')) if os.path.exists(V + '/tools/levels.json') else {}
checks = []
for p in props:
    i = p['id']; l = LV.get(i, {})
    checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
        technique=l.get('technique', 'contracts on the real code, deductive; bounded replay'), level=l.get('level', 'exploration'),
        level_note=l.get('note', 'Bounded: harness on the real code against an independent oracle.')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=[]), open(V + '/MANIFEST.json', 'w'), indent=1)
