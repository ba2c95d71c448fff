#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run it after editing)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, observe=observe or []))

EKF = "src/ekf/ekf.cpp"; TYPES = "src/ekf/types.cpp"; MATH = "src/utility/math_helper.cpp"
TYPEH = "src/utility/type_helper.cpp"; GPSH = "src/utility/gps_helper.cpp"; UPD = "src/ekf/update/updater.cpp"
exec(open(os.path.join(here, 'tools', 'properties.py')).read())

with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            "id": p['id'], "title": p['title'], "statement": p['statement'],
            "quantifier": {"over": p['over'], "text": p['text']},
            "why_tests_cant": p['why'],
            "anchors": {"files": p['files'],
                        "mechanism": [{"name": n, "where": w} for n, w in p['mechanism']],
                        **({"observe_at": p['observe']} if p['observe'] else {})},
        }) + "\n")
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{
        "property": p['id'],
        "quick_cmd": "./run_check.sh %s" % p['id'],
        "thorough_cmd": "VERIF_TIER=thorough ./run_check.sh %s" % p['id'],
        "technique": p['technique'],
        "level": "exploration",
        "level_note": p['note'],
    } for p in P],
    "not_applicable": NOT_APPLICABLE,
}, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write("\n")
