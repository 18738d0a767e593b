#!/usr/bin/env python3
"""Decide one property:  check.py C06 [--tier quick|thorough]

1. every contract file of the property is woven with /repo's current source and given to Verus
   (contracts/<file>.vrs; the verifier must accept every obligation);
2. Kani harnesses of the property (complete, loop-free or fully unrolled) run on the real crate;
3. the replay finder (harness/, linked against /repo's crate) evaluates the executable
   specification on a bounded, stated input set.

Outcome: VIOLATION (exit 1) if the finder has a failing input or an obligation fails that the
verifier generated from unchanged structure; everything else exits 0, and what could not be
decided by proof is labelled so in the evidence. Exit 2: the machinery itself failed.
"""
import os, sys, json, time, subprocess, tempfile, re, shutil, threading, signal
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
from rsx import AnchorLost
from weave import Weaver
from props import PROPS

OBLIGATION = re.compile(r'(postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied'
    r'|possible arithmetic|possible division by zero|decreases not satisfied|possible bit shift|index out of bounds'
    r'|unreachable|could not prove termination|loop invariant|requires not satisfied|assertion not satisfied'
    r'|constructed value may fail|cannot show|precondition|possible overflow|panic)', re.I)
LIMIT = re.compile(r'(resource limit|rlimit|timed? ?out|could not finish)', re.I)

START = time.time()
FOUND = threading.Event() # the finder has a failing input: no need to wait long for the verifier
def sh(cmd, timeout, env=None, cwd=None, stop=False):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE='true', RUST_BACKTRACE='0')
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, start_new_session=True)
    try:
        if stop:
            end = time.time() + timeout
            while True:
                try:
                    o, r = p.communicate(timeout=5)
                    break
                except subprocess.TimeoutExpired:
                    if time.time() > end or FOUND.is_set() and time.time() - START > 200: raise
        else: o, r = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf-8', 'replace'), r.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, r = p.communicate()
        return -9, o.decode('utf-8', 'replace'), r.decode('utf-8', 'replace') + '\nTIMEOUT'

# ---------------------------------------------------------------- Verus
def run_verus(text, path, rlimit, timeout):
    open(path, 'w').write(text)
    t0 = time.time()
    rc, out, err = sh(['verus', path, '--output-json', '--time', '--error-format=json', '--multiple-errors', '8',
                       '--rlimit', str(rlimit), '--num-threads', '3', '--no-report-long-running'], timeout, stop=True)
    d = {}
    try: d = json.loads(out[out.index('{'):]) if '{' in out else {}
    except ValueError: pass
    res = d.get('verification-results', {})
    diags = []
    for l in err.split('\n'):
        if l.startswith('{'):
            try: x = json.loads(l)
            except ValueError: continue
            if x.get('level') == 'error' and not x['message'].startswith('aborting due'):
                diags.append(x)
    return dict(rc=rc, verified=res.get('verified', 0), errors=res.get('errors', 0), success=res.get('success', False),
                encountered=bool(res), diags=diags, wall=time.time() - t0, raw=err[-6000:],
                smt_ms=d.get('times-ms', {}).get('smt', {}).get('total', 0) if isinstance(d.get('times-ms', {}).get('smt', {}), dict) else 0)

def fn_of_line(lines, n):
    for i in range(min(n, len(lines)) - 1, -1, -1):
        m = re.match(r'\s*(?:pub\s+|open\s+|closed\s+|broadcast\s+|uninterp\s+|proof\s+|spec\s+|exec\s+|const\s+)*fn\s+(\w+)', lines[i])
        if m: return m.group(1)
    return '?'

def verus_job(vrs, tmp, tier, out):
    r = dict(file=vrs, status='?', fns=[], trusted=[], log=[], verified=0, failed=[], reason='', wall=0, smt_ms=0)
    out.append(r)
    try:
        w = Weaver(REPO, os.path.join(VERIF, 'contracts'))
        text = w.weave(vrs)
        r.update(fns=w.fns, trusted=w.trusted, log=w.log, files=sorted(w.files))
    except AnchorLost as e:
        r.update(status='undecided', reason='anchor lost: %s' % e)
        return
    except RecursionError:
        r.update(status='undecided', reason='extraction failed')
        return
    path = os.path.join(tmp, vrs.replace('.vrs', '.rs'))
    # vacuity run in parallel: every extracted body gets assert(false) and must be rejected
    vac = {}
    def vacuity():
        wv = Weaver(REPO, os.path.join(VERIF, 'contracts'), vacuity=True)
        tv = wv.weave(vrs)
        vac.update(run_verus(tv, os.path.join(tmp, 'vac_' + vrs.replace('.vrs', '.rs')), 10, 400), n=len(wv.fns), text=tv)
    th = threading.Thread(target=vacuity); th.start()
    v = run_verus(text, path, 60, 450)
    if (not v['success'] and any(LIMIT.search(d['message']) for d in v['diags']) or v['rc'] == -9) and not FOUND.is_set() and time.time() - START < 560:
        v2 = run_verus(text, path, 150, 800 - (time.time() - START))
        if v2['success']: v = v2
    th.join()
    lines = text.split('\n')
    r['verified'], r['errors'], r['wall'], r['smt_ms'] = v['verified'], v['errors'], v['wall'], v['smt_ms']
    # vacuity
    vl = vac.get('text', '').split('\n')
    hit = set()
    for d in vac.get('diags', []):
        for s in d['spans']:
            ln = s['line_start']
            if s['is_primary'] and ln <= len(vl) and vl[ln - 1].strip() == 'proof { assert(false); }': hit.add(ln)
    r['vacuity'] = '%d of %d function bodies reject assert(false)' % (len(hit), vac.get('n', 0))
    r['vacuous'] = vac.get('encountered') and len(hit) < vac.get('n', 0) 
    if v['success'] and v['verified'] > 0:
        r['status'] = 'proved'
        if r['vacuous']:
            r.update(status='vacuous', reason=r['vacuity'])
        return
    if v['rc'] == -9:
        r.update(status='undecided', reason='verifier timed out'); return
    obl = [d for d in v['diags'] if OBLIGATION.search(d['message'])]
    other = [d for d in v['diags'] if not OBLIGATION.search(d['message'])]
    if not v['encountered'] or (other and not all(LIMIT.search(d['message']) for d in other)) and v['verified'] + v['errors'] == 0:
        r.update(status='undecided', reason='not in the verifier\'s language: ' + '; '.join(d['message'][:200] for d in v['diags'][:3]))
        return
    lim = [d for d in other if LIMIT.search(d['message'])]
    if not obl:
        r.update(status='undecided', reason='; '.join(d['message'][:200] for d in v['diags'][:3]) or v['raw'][-300:])
        return
    for d in obl:
        sp = [s for s in d['spans'] if s['is_primary']] or d['spans']
        ln = sp[0]['line_start'] if sp else 0
        r['failed'].append(dict(obligation=d['message'], function=fn_of_line(lines, ln), line=ln,
                                text=[s['text'][0]['text'].strip() if s.get('text') else '' for s in d['spans']],
                                rendered=d.get('rendered', '')))
    r['status'] = 'failed'
    r['reason'] = '; '.join('%s in %s' % (f['obligation'], f['function']) for f in r['failed'][:4])

# ---------------------------------------------------------------- Kani
def kani_job(prop, harnesses, tier, out):
    r = dict(harnesses=harnesses, status='?', reason='', checks=0, failed=[], wall=0)
    out.append(r)
    t0 = time.time()
    crate = os.path.join(VERIF, 'kani')
    cmd = ['cargo', 'kani', '--output-format', 'regular', '-j', '4', '--exact'] if False else ['cargo', 'kani']
    for h in harnesses: cmd += ['--harness', h]
    cmd += ['--exact', '--target-dir', os.path.join(VERIF, '.build', 'kani'), '-Z', 'unstable-options']
    rc, o, e = sh(cmd, 700, cwd=crate)
    r['wall'] = time.time() - t0
    per = re.split(r'Checking harness (\S+?)\.\.\.', o)
    seen = {}
    for i in range(1, len(per) - 1, 2):
        body = per[i + 1]
        m = re.search(r'\*\* (\d+) of (\d+) failed', body)
        n = int(m.group(2)) if m else 0
        ok = 'VERIFICATION:- SUCCESSFUL' in body
        fails = []
        for f in re.finditer(r'Check \d+: (\S+)\s*\n\s*- Status: FAILURE\s*\n\s*- Description: "(.*?)"\s*\n\s*- Location: (.*)', body):
            fails.append('%s (%s) at %s' % (f.group(2), f.group(1), f.group(3)))
        seen[per[i]] = (ok, n, fails, 'VERIFICATION:- FAILED' in body)
        r['checks'] += n
    r['detail'] = {k: dict(ok=v[0], checks=v[1]) for k, v in seen.items()}
    bad = [k for k, v in seen.items() if v[3] and v[2] and not all('unwinding assertion' in x or 'not currently supported' in x or 'unsupported' in x.lower() for x in v[2])]
    if bad:
        r['status'] = 'failed'
        r['failed'] = [dict(harness=k, obligations=seen[k][2]) for k in bad]
        r['reason'] = '; '.join('%s: %s' % (k, seen[k][2][0]) for k in bad)
    elif len(seen) >= len(harnesses) and all(v[0] for v in seen.values()):
        r['status'] = 'proved'
    else:
        r['status'] = 'undecided'
        r['reason'] = (e[-500:] or o[-500:])

# ---------------------------------------------------------------- finder
def finder_job(prop, tier, seed, tmp, out):
    r = dict(status='?', reason='')
    out.append(r)
    tgt = os.path.join(VERIF, '.build', 'harness')
    rc, o, e = sh(['cargo', 'build', '--offline', '--quiet', '--bin', 'sv', '--target-dir', tgt], 600, cwd=os.path.join(VERIF, 'harness'))
    if rc != 0:
        r.update(status='error', reason='harness does not build: ' + e[-1500:]); return
    exe = os.path.join(tmp, 'sv')
    shutil.copy(os.path.join(tgt, 'debug', 'sv'), exe)
    t0 = time.time()
    rep = os.path.join(tmp, 'finder.json')
    rc, o, e = sh([exe, prop, '--tier', tier, '--seed', str(seed), '--out', rep], 780 if tier == 'thorough' else 240, cwd=tmp)
    r['wall'] = time.time() - t0
    if not os.path.exists(rep):
        # the program died (abort, stack overflow) or hung: the last case announced is the failing input
        last = [l for l in o.split('\n') if l.startswith('CASE ')]
        if rc != 0 and last and rc != -9:
            r.update(status='failed', violation=dict(case=last[-1][5:], expected='the interpreter returns', actual='process ended with status %d: %s' % (rc, e[-300:])))
        elif rc == -9 and os.path.exists(os.path.join(tmp, 'current_case')):
            r.update(status='failed', violation=dict(case=open(os.path.join(tmp, 'current_case')).read(), expected='evaluation ends', actual='no result within the time limit'))
        elif os.path.exists(os.path.join(tmp, 'current_case')):
            r.update(status='failed', violation=dict(case=open(os.path.join(tmp, 'current_case')).read(), expected='the interpreter returns', actual='process ended with status %d: %s' % (rc, e[-300:])))
        else:
            r.update(status='error', reason='finder failed rc=%d %s' % (rc, e[-800:]))
        return
    d = json.load(open(rep))
    r.update(d)
    listed = {k.get('id') for k in known(prop)}
    r['known'] = [k for k in d.get('known', []) if k['id'] in listed]
    for k in d.get('known', []):
        if k['id'] not in listed and not r.get('violation'):
            r['violation'] = dict(property=prop, case=k['what'], expected='see case', actual='see case', id=k['id'])
    r['status'] = 'failed' if r.get('violation') else 'ok'
    if r.get('violation'): FOUND.set()

def known(prop):
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == prop and d.get('status') == 'finding': out.append(d)
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    cfg = PROPS[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='sv_%s_' % prop)
    V, K, F = [], [], []
    ths = []
    if cfg.get('finder', True):
        ths.append(threading.Thread(target=finder_job, args=(prop, tier, seed, tmp, F)))
    if cfg.get('kani'):
        ths.append(threading.Thread(target=kani_job, args=(prop, cfg['kani'], tier, K)))
    def vall():
        tt = [threading.Thread(target=verus_job, args=(f, tmp, tier, V)) for f in cfg['verus']]
        for x in tt: x.start()
        for x in tt: x.join()
    ths.append(threading.Thread(target=vall))
    for x in ths: x.start()
    for x in ths: x.join()

    violations, lines, err = 0, [], None
    repdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(repdir, exist_ok=True)
    rep = os.path.join(repdir, '%s.json' % prop)
    if os.path.exists(rep): os.remove(rep)
    f = F[0] if F else dict(status='none')
    failed = [x for x in V + K if x['status'] == 'failed']
    for k in f.get('known', []):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, k['id'], k['what'].replace('\n', '\\n')[:300]))
    if f['status'] == 'failed':
        violations += 1
        json.dump(dict(property=prop, kind='failing input on the real code', violation=f['violation'],
                       failed_obligations=[x.get('failed') for x in failed],
                       replay='cd /verif/harness && cargo run --offline --bin sv -- replay %s' % rep), open(rep, 'w'), indent=1, ensure_ascii=False)
        lines.append('VIOLATION property=%s replay=%s' % (prop, rep))
    elif failed:
        violations += 1
        json.dump(dict(property=prop, kind='failed proof obligation, no failing input found', failed=[x['failed'] for x in failed],
                       verifier_reason=[x['reason'] for x in failed], extraction=[x.get('file') for x in failed]), open(rep, 'w'), indent=1, ensure_ascii=False)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rep))
    elif f['status'] == 'error':
        err = f['reason']
    if any(x['status'] == 'vacuous' for x in V): err = 'vacuous contract: ' + '; '.join(x['reason'] for x in V if x['status'] == 'vacuous')
    obligations = sum(x.get('verified', 0) + x.get('errors', 0) for x in V) + sum(x['checks'] for x in K)
    discharged = sum(x.get('verified', 0) for x in V) + sum(sum(d['checks'] for d in x.get('detail', {}).values() if d['ok']) for x in K)
    und = [x for x in V + K if x['status'] == 'undecided']
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd='python3 tools/check.py %s (verus %s%s)' % (prop, ' '.join(cfg['verus']), '; cargo kani ' + ' '.join(cfg.get('kani', [])) if cfg.get('kani') else ''),
        trusted_base=sorted(set(scan_trust(cfg['verus']) + [t for x in V for t in x['trusted']])),
        functions_under_contract=sorted({n for x in V for n in x['fns']}) + ['kani: ' + h for h in cfg.get('kani', [])],
        verus=[dict(file=x['file'], status=x['status'], verified=x['verified'], errors=x.get('errors', 0), reason=x['reason'],
                    wall_s=round(x['wall'], 2), smt_ms=x['smt_ms'], vacuity=x.get('vacuity', ''), extraction_changes=x['log']) for x in V],
        kani=[dict(harnesses=x.get('detail', {}), status=x['status'], reason=x['reason'][:400], wall_s=round(x['wall'], 1)) for x in K],
        undecided=[x['reason'][:400] for x in und],
        bounded_stand_in=dict(label='bounded, not counted as proved', status=f['status'], bound=f.get('bound', ''), evaluations=f.get('evaluations', 0),
                              distinct_nontrivial=f.get('distinct', 0), rule=f.get('rule', ''), samples=f.get('samples', []), wall_s=round(f.get('wall', 0), 1)),
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg['level'], coverage=cov, wall_s=round(time.time() - t0, 1),
              assumptions=cfg['assumptions'], violations=violations)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, ensure_ascii=False)
    for x in V: print('%s: %s, %d obligations discharged, %d failed. %s' % (x['file'], x['status'], x['verified'], x.get('errors', 0), x['reason']))
    for x in K: print('kani: %s, %d checks. %s' % (x['status'], x['checks'], x['reason'][:300]))
    if F: print('finder: %s, %s evaluations (%s)' % (f['status'], f.get('evaluations', 0), f.get('bound', '')))
    if f['status'] == 'failed': print(json.dumps(f['violation'], ensure_ascii=False)[:2000])
    shutil.rmtree(tmp, ignore_errors=True)
    for l in lines: print(l)
    if lines: sys.exit(1)
    if err:
        print('ERROR', err); sys.exit(2)
    sys.exit(0)

def scan_trust(files, seen=None):
    """mechanical scan of the contract files for everything that is assumed"""
    out, seen = [], seen if seen is not None else set()
    for f in files:
        if f in seen: continue
        seen.add(f)
        txt = open(os.path.join(VERIF, 'contracts', f)).read()
        L = txt.split('\n')
        for i, l in enumerate(L):
            s = l.strip()
            if s.startswith('//@include'): out += scan_trust([s.split()[1]], seen)
            if 'assume_specification' in l: out.append('%s: assumed std contract %s' % (f, re.sub(r'.*assume_specification[^\[]*\[(.*?)\]\s*\(.*', r'\1', s)[:80]))
            elif 'external_body' in l:
                nxt = next((x.strip() for x in L[i + 1:i + 5] if re.search(r'\b(fn|struct)\b', x)), '')
                out.append('%s: external body %s' % (f, nxt[:90]))
            elif re.search(r'\b(assume|admit)\s*\(', l): out.append('%s: assume/admit %s' % (f, s[:80]))
            elif re.search(r'\buninterp spec fn (\w+)', l): out.append('%s: uninterpreted %s' % (f, re.search(r'\buninterp spec fn (\w+)', l).group(1)))
    return out

if __name__ == '__main__':
    main()
