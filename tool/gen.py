#!/usr/bin/env python3
"""regenerate properties.jsonl and MANIFEST.json from tool/props.py (development helper)"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
top = os.path.dirname(here)
with open(os.path.join(top, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS + props.NA:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 checks/setup.py',
     'checks': [{'property': p['id'], 'quick_cmd': f"python3 checks/run.py {p['id']} quick", 'thorough_cmd': f"python3 checks/run.py {p['id']} thorough",
                 'technique': p['technique'], 'level': 'other', 'level_note': p['note']} for p in props.PROPS],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in props.NA]}
json.dump(m, open(os.path.join(top, 'MANIFEST.json'), 'w'), indent=1)
