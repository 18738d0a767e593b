#!/usr/bin/env python3
"""mkseed.py SPEC.py [id ...]: makes /verif/seeded/<id> from change descriptions and confirms each in a scratch copy.
SPEC.py defines SEEDS = [dict(id, property, file, pairs=[(old,new)...] | edits=[(file,old,new)], needs, breaks, main)]"""
import sys, os, subprocess, json, shutil, runpy
V = '/verif'; SC = '/tmp/seedcopy'; REPO = '/repo'
def sh(c, cwd=None, t=600):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t); return p.returncode, p.stdout.decode('utf-8', 'replace')
def demo(d, cwd): return sh(f'bash {d}/demo.sh', cwd, 300)
seeds = runpy.run_path(sys.argv[1])['SEEDS']; want = sys.argv[2:]
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
if not os.path.exists(SC): sh(f'cp -a {REPO} {SC}')
for s in seeds:
    if want and s['id'] not in want: continue
    d = f'{V}/seeded/{s["id"]}'
    if os.path.exists(d + '/patch.diff') and not want: continue
    sh(f'git checkout -q -- . && git fetch -q {REPO} HEAD && git reset -q --hard FETCH_HEAD', SC)
    ed = s.get('edits') or [(s['file'], a, b) for a, b in s['pairs']]
    bad = None; why = []
    for f, a, b in ed:
        p = f'{SC}/{f}'; t = open(p).read()
        if t.count(a) != 1: bad = f'{f}: {t.count(a)} matches of {a[:60]!r}'; break
        open(p, 'w').write(t.replace(a, b))
    if bad: print(s['id'], 'BAD', bad); continue
    os.makedirs(d, exist_ok=True)
    for n in ('demo.sh', 'common.rs'): shutil.copy(f'{V}/tools/seed/{n}', d)
    open(d + '/main.rs', 'w').write('mod common;\nuse common::*;\n#[allow(unused_imports)]\nuse sieve::*;\n' + s['main'].strip('\n') + '\n')
    open(d + '/patch.diff', 'w').write(sh('git diff', SC)[1])
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    r1, o1 = demo(d, REPO); r2, o2 = demo(d, SC)
    if r1 != 0: why.append('demo fails on the unchanged tree: ' + o1[-400:])
    if r2 != 1: why.append(f'demo with patch: {r2} ' + o2[-400:])
    if not why:
        try:
            rc, o = sh(f'git apply {d}/patch.diff', REPO)
            if rc: why.append('apply: ' + o[:300])
            rc, o = sh('bash /opt/vp/build.sh', REPO)
            if rc: why.append('build: ' + o[-500:])
            sh('bash /opt/vp/test.sh /tmp/seed_t.json', REPO)
            ps = set(json.load(open('/tmp/seed_t.json'))['passed']); miss = [x for x in base if x not in ps]
            if miss: why.append('stable tests fail: ' + '; '.join(miss[:5]))
            if not why and not os.environ.get('NOCHECK'):
                rc, o = sh(f'python3 {V}/tools/check.py {s["property"]} --tier quick', V, 900)
                res = [l for l in o.split(chr(10)) if l.startswith(('VIOLATION', 'ERROR'))]
                print('   check:', rc, res, '|', ' || '.join(l[:260] for l in o.split(chr(10)) if '.vrs' in l or l.startswith('finder')), flush=True)
        finally:
            sh('git checkout -q -- .', REPO)
    print(s['id'], 'OK' if not why else 'BAD ' + ' | '.join(why), '' if why else o2.strip()[-150:], flush=True)
    if why and not os.environ.get('KEEP'): shutil.rmtree(d)
