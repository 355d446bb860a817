#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/registry.json and the notes below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
reg = json.load(open(HERE + '/lib/registry.json'))
notes = json.load(open(HERE + '/tools/levels.json'))
props = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
checks, na = [], []
for p in props:
    if p in reg:
        n = notes.get(p, notes['default'])
        checks.append(dict(property=p, quick_cmd='./check %s --tier quick' % p, thorough_cmd='./check %s --tier thorough' % p,
                           technique=n['technique'], level='model_checking', level_note=n['note']))
    else:
        na.append(dict(property=p, reason=notes.get('na', {}).get(p, 'Its check is not built yet.')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='All checks: TLA+ specification in spec/, model checked with TLC; behaviours replayed on the real code by families/*.py; recorded traces judged by TLC against the *Trace modules.')
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
