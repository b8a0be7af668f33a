"""writes MANIFEST.json: a property is claimed when harness/<id>.py exists"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness', i.lower() + '.py')):
        mods, note = NOTE[i]
        checks.append(dict(property=i, quick_cmd='./check.sh %s quick' % i, thorough_cmd='./check.sh %s thorough' % i,
                           technique='TLA+ specification (%s) model-checked with TLC; %s' % (mods[0], mods[1]), level='model_checking', level_note=note))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='No hooks: the checks observe the code through its public interface and its documented attributes. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
