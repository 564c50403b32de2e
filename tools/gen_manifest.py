#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
claims = json.load(open(V + '/specs/claims.json')) if os.path.exists(V + '/specs/claims.json') else {}
na = claims.get('not_applicable', {})
checks = []
for i in ids:
    c = claims.get('checks', {}).get(i)
    if c:
        checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=c['technique'], level=c.get('level', 'proof'),
                           level_note=c['note']))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks,
         not_applicable=[dict(property=i, reason=na.get(i, "check not built yet")) for i in ids if i not in claims.get('checks', {})])
if claims.get('hooks'):
    m['hooks'] = claims['hooks']
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
