#!/usr/bin/env python3
"""Writes MANIFEST.json.  CLAIMED lists the properties whose checks are built."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CL = json.load(open(os.path.join(H, 'claims.json')))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NA = CL['not_applicable']
checks, na = [], []
for p in props:
    i = p['id']
    if i in CL['claims']:
        c = CL['claims'][i]
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i} --tier quick', 'thorough_cmd': f'python3 check.py {i} --tier thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': c['technique'], 'level': 'exploration', 'level_note': c['note']})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
     'hooks': {'guard': 'SLIDE_SIM', 'enable': 'sim/build.sh compiles /repo/src with -DSLIDE_SIM (and -DSLIDE_SIM_T_MODEL=2 for the thermal flavour, -DSLIDE_SIM_OCV_POINTS=3 for the fitting flavour)', 'source_commits': CL['hook_commits']},
     'checks': checks, 'not_applicable': na,
     'notes': 'One simulator (sim/), four build flavours. Every run is one seed; violations are replayed in a fresh process before they are reported.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
