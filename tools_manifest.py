"""regenerates MANIFEST.json from the check modules that exist"""
import json
import os
import re
HERE = os.path.dirname(os.path.abspath(__file__))
T = json.load(open(os.path.join(HERE, 'techniques.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(HERE, 'mon', f'check_{p.lower()}.py')) and p in T:
        checks.append(dict(property=p, quick_cmd=f'/opt/venv/bin/python run.py {p} --tier quick',
                           thorough_cmd=f'/opt/venv/bin/python run.py {p} --tier thorough',
                           evidence_file=f'evidence/{p}.json', technique=T[p][0], level='exploration', level_note=T[p][1]))
    else:
        na.append(dict(property=p, reason='its monitor is still being built (runtime monitoring applies)'))
doc = dict(version=1, setup_cmd='/opt/venv/bin/python -c "print(1)"', checks=checks, not_applicable=na,
           notes='All checks run the code in /repo (or $VERIF_REPO) in place; nothing is built. Replay: run.py <id> --replay <path>.')
json.dump(doc, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
