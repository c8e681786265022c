"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA, NOTES
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                 anchors=dict(files=sorted(set(['aeolis/' + m.split(':')[0] for m, _ in p['mech']])),
                              mechanism=[dict(name=n, where='aeolis/' + m) for m, n in p['mech']],
                              observe_at=p.get('observe', []), hook_needed=None))
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for p in PROPS:
    if p['id'] in NA:
        na.append(dict(property=p['id'], reason=NA[p['id']]))
        continue
    checks.append(dict(property=p['id'], quick_cmd='./check %s' % p['id'], thorough_cmd='./check %s --thorough' % p['id'],
                       technique=p.get('technique', 'contract-based deductive verification: function contracts, symbolic execution of the real source, SMT-discharged obligations (z3/cvc5)'),
                       level=p.get('level', 'proof'), level_note=p['note']))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na, notes=NOTES),
          open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
