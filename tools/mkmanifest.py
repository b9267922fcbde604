"""writes MANIFEST.json from properties.jsonl and the list below"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
exec(open(os.path.join(ROOT, 'tools', 'claims.py')).read())
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        lvl, note, tech = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd='python3 /verif/check.py %s --tier quick' % i, thorough_cmd='python3 /verif/check.py %s --tier thorough' % i,
                           technique=tech, level=lvl, level_note=note))
    else: na.append(dict(property=i, reason=NA.get(i, 'no check registered yet (work in progress)')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
