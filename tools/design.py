#!/usr/bin/env python3
"""writes DESIGN.md: tools/design.in.md with the parts that are generated (properties, seeds, findings)"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from rules.registry import REGISTRY, NOT_APPLICABLE
text = open(V + '/tools/design.in.md').read()
# per-property notes: "### Cnn" sections of tools/design.props.md with "spec:", "method:", "reach:" paragraphs
props = {}
cur = None
for l in open(V + '/tools/design.props.md'):
    m = re.match(r'### (\w+)', l)
    if m:
        cur = m.group(1)
        props[cur] = ''
    elif cur:
        props[cur] += l
out = []
for k, p in sorted(REGISTRY.items()):
    out.append('### %s %s\n' % (k, p['title']))
    out.append('*Rule*: `rules/%s.py` (%s). *Technique*: %s.\n' % (p['module'], ', '.join('`%s`' % r for r in p['run']), p['technique']))
    out.append(props.get(k, '').strip() + '\n')
    out.append('*Limits*: %s\n' % p['note'])
    e = V + '/evidence/%s.json' % k
out.append('### Not applicable\n')
out.append('\n'.join('- **%s %s**: %s' % (p['pid'], p['title'], p['reason']) for p in sorted(NOT_APPLICABLE, key=lambda p: p['pid'])) or 'none\n')
seeds = json.load(open(V + '/tools/seeds.json'))
rows = ['| change | property | what it needs | caught by |', '|---|---|---|---|']
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % s))
    r = seeds.get(s) or {}
    rows.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '/').replace('\n', ' '), ', '.join(r.get('caught') or ['**missed**'])))
text = text.replace('@PROPERTIES@', '\n'.join(out)).replace('@SEEDS@', '\n'.join(rows))
fix = [l.strip() for l in open(V + '/known_findings.txt') if l.startswith('fixed:')]
text = text.replace('@FIXED@', '\n'.join('- ' + re.sub(r'^fixed: property=(\w+) (\w+) ', r'\1, `\2`: ', l) for l in fix))
open(V + '/DESIGN.md', 'w').write(text)
print('DESIGN.md', len(text))
