"""fills the tables of DESIGN.md from the evidence of the last run of every check and from seeded/*/meta.json"""
import json, glob, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, 'tools'))
from props import PROPS
out = ['| property | contracts (status: proved = all sizes and values, bounded = stated small sizes, runs = real code on random inputs) | obligations | bounded | runs | wall s |', '|---|---|---|---|---|---|']
for p in PROPS:
    try:
        d = json.load(open(os.path.join(root, 'evidence', p['id'] + '.json')))
    except OSError:
        continue
    c = d['coverage']
    by = {}
    for n, i in c['contracts'].items():
        st = {'runtime-bounded': 'runs'}.get(i['status'], i['status'])
        if st == 'bounded':
            st += ' ' + ', '.join(sorted({' '.join('%s=%s' % kv for kv in sorted(b.items())) for b in i.get('bounded_dims', [])}))
        by.setdefault(st, []).append(n)
    txt = '; '.join('**%s**: %s' % (k, ', '.join(v)) for k, v in sorted(by.items(), key=lambda kv: (kv[0] != 'proved', kv[0])))
    out.append('| **%s** %s | %s | %d/%d | %d/%d | %d | %d |' % (p['id'], p['title'], txt, c['discharged'], c['obligations'], c['bounded_discharged'], c['bounded_obligations'], c['evaluations'], round(d['wall_s'])))
seeds = ['| change | property | breaks | needs |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    seeds.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['what_it_breaks'], m['needs']))
f = os.path.join(root, 'DESIGN.md')
t = open(f).read()
for k, v in (('properties', out), ('seeds', seeds)):
    t = re.sub(r'(<!-- %s -->\n).*?(<!-- end -->)' % k, lambda m: m.group(1) + '\n'.join(v) + '\n' + m.group(2), t, flags=re.S)
open(f, 'w').write(t)
