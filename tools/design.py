"""Writes DESIGN.md from tools/design_head.md, the rules, the planted bugs and tools/design_na.md."""
import glob
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa import core, rules  # noqa

props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = {c['property_id'] if 'property_id' in c else c.get('property'): c for c in json.load(open(V + '/MANIFEST.json'))['checks']}
out = [open(V + '/tools/design_head.md').read().rstrip(), '', '## Properties', '']
seeds = {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(d)), m))
caught = {}
f = V + '/tools/caught.json'
if os.path.exists(f):
    caught = json.load(open(f))
for p in props:
    i = p['id']
    out += ['### %s. %s' % (i, p['title']), '', p['statement'], '']
    c = man.get(i, {})
    if c.get('technique'):
        out += ['*Decided by* ' + c['technique'] + '.', '']
    for rid, text, fn in core.RULES.get(i, []):
        out.append('- `%s`: %s' % (rid, text))
    if i in seeds:
        out += ['', 'Planted: ' + '; '.join('`%s` (%s; %s)' % (k, m['what_it_breaks'].rstrip('.'), caught.get(k, 'caught')) for k, m in seeds[i]) + '.']
    out.append('')
out.append(open(V + '/tools/design_na.md').read().strip())
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
