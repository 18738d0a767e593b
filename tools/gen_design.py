#!/usr/bin/env python3
"""Fill the generated tables of DESIGN.md from props.py, properties.jsonl, the seeded folder and (when present) the evidence of the last runs."""
import json, os, sys, re
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NA, STD
out = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i not in PROPS:
        out.append('Not claimed: %s\n' % NA.get(i, 'no check built yet')); continue
    c = PROPS[i]
    out.append(c['note'] + '\n')
    out.append('* contract files: %s' % ', '.join(c['verus']))
    extra = [a for a in c['assumptions'] if a not in STD]
    if extra: out.append('* assumed besides the common ones: %s' % '; '.join(extra))
    e = V + '/evidence/%s.json' % i
    if os.path.exists(e):
        d = json.load(open(e))['coverage']
        fs = d.get('functions_under_contract', [])
        out.append('* %s obligations over %d functions of /repo: %s' % (d.get('obligations'), len(fs), ', '.join(sorted({f.split(' ', 1)[1] for f in fs}))))
        out.append('* solver: %s' % ', '.join('%s %.0f s' % (v['file'], v['wall_s']) for v in d.get('verus', [])))
        b = d.get('bounded_stand_in') or {}
        if b: out.append('* bounded finder: %s. Oracle: %s' % (b.get('bound'), b.get('rule')))
    out.append('')
seeds = ['| change | property | needs |', '|---|---|---|']
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, s)))
    seeds.append('| %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '\\|').replace('\n', ' ')))
t = open(V + '/DESIGN.md').read()
t = re.sub(r'(?s)(<!-- begin table -->\n).*?(<!-- end table -->)', lambda m: m[1] + '\n' + '\n'.join(out) + m[2], t)
t = re.sub(r'(?s)(<!-- begin seeds -->\n).*?(<!-- end seeds -->)', lambda m: m[1] + '\n' + '\n'.join(seeds) + '\n\n' + m[2], t)
open(V + '/DESIGN.md', 'w').write(t)
