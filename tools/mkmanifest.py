"""Regenerates MANIFEST.json from properties.jsonl, vf/texts.py and the modules present in vf/props"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf.texts import TECHNIQUE, NOTE, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl')) if l.strip()]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'vf/props/%s.py' % i.lower())) and i not in NOT_APPLICABLE:
        checks.append(dict(property=i, quick_cmd='./check %s --tier quick' % i, thorough_cmd='./check %s --tier thorough' % i,
                           technique=TECHNIQUE.get(i, 'property-based testing (Hypothesis) against a reference model'),
                           level='exploration', level_note=NOTE.get(i, NOTE['*'])))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'the check is not built yet')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
