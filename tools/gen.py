#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from rules/registry.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from rules.registry import REGISTRY, NOT_APPLICABLE
allp = sorted(list(REGISTRY.values()) + NOT_APPLICABLE, key=lambda p: p['pid'])
with open(V + '/properties.jsonl', 'w') as fh:
    for p in allp:
        assert len(p['title']) <= 80, (p['pid'], len(p['title']))
        s = p['statement']
        a = dict(files=p['files'], mechanism=p['mechanism'])
        if p.get('state'):
            a['state'] = p['state']
        fh.write(json.dumps(dict(id=p['pid'], title=p['title'], statement=s, quantifier=dict(over=p['over'], text=p['quant']),
                                 why_tests_cant=p['why'], anchors=a)) + '\n')
m = dict(version=1, setup_cmd='bash extractor/build.sh', checks=[
    dict(property=k, quick_cmd='python3 check.py ' + k, thorough_cmd='python3 check.py %s --thorough' % k, technique='static analysis: ' + p['technique'],
         level=p['level'], level_note=p['note']) for k, p in sorted(REGISTRY.items())],
    not_applicable=[dict(property=p['pid'], reason=p['reason']) for p in sorted(NOT_APPLICABLE, key=lambda p: p['pid'])])
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
try:
    import jsonschema
    ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(V + '/properties.jsonl'):
        jsonschema.validate(json.loads(l), ps)
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('schemas ok', len(allp))
except ImportError:
    print('no jsonschema')
