#!/usr/bin/env python3
"""MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NA
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for i in ids:
    if i not in PROPS: continue
    c = PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3 tools/check.py %s --tier quick' % i, thorough_cmd='python3 tools/check.py %s --tier thorough' % i,
        evidence_file='evidence/%s.json' % i, technique=c.get('technique', 'contract-based deductive verification (Verus) of functions extracted from /repo on every run'),
        level=c['level'], level_note=c['note']))
na = [dict(property=i, reason=NA.get(i, 'no check built yet')) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na,
    notes='Every check weaves contracts/*.vrs with /repo\'s current source and gives the result to Verus (some also run Kani on the real crate); a bounded replay finder linked against /repo supplies failing inputs. No hooks are needed in /repo.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'checks', len(na), 'not applicable')
