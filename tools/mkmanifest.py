"""Regenerate MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
TECH = json.load(open(os.path.join(H, 'tools', 'techniques.json')))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(H, 'checks', i + '.py')) and i in TECH:
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py %s --thorough' % i,
                           technique=TECH[i][0], level='model_checking', level_note=TECH[i][1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check under construction')))
m = dict(version=1, setup_cmd='true', hooks=dict(guard='none', enable='no hooks: the checks use public interfaces only', source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1); print(len(checks), 'checks', len(na), 'n/a')
