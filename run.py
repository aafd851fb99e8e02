"""Check of one property:  python3-vt run.py <ID> [--thorough]

1. every contract of the property is verified on the current source of the repository (deductive verification,
   all obligations must be discharged);
2. the concrete oracle of the property is run on the real code (bounded cross-check; also the replay engine);
3. exit 0 when all obligations are discharged and the oracle is quiet, otherwise exit 1 with a VIOLATION line.
"""
import argparse, importlib, json, os, subprocess, sys, time, threading, shutil, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VC_REPO', '/repo')
VENV, VT = '/opt/venv/bin/python', 'python3-vt'
if not shutil.which(VT): VT = '/opt/veriftools/pyvenv/bin/python3'

def config():
    return json.load(open(os.path.join(HERE, 'checks.json')))

def known(pid):
    """listed findings: lines 'known: property=<id> case=<case> match=<json subset of params> -- text'"""
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                head, text = l.split(' -- ', 1)
                kv = dict(x.split('=', 1) for x in head[len('known: '):].split(' ', 2))
                out.append((kv['case'], json.loads(kv['match']), text))
    return out

def is_known(ks, v):
    return any(c == v['case'] and all(v['params'].get(k) == x for k, x in m.items()) for c, m, t in ks)

def oracle(pid, cfg, budget, seed, out, extra=()):
    py = VT if cfg.get('oracle_py') == 'vt' else VENV
    env = dict(os.environ, PYTHONPATH='%s:%s/nonasymptotic' % (REPO, REPO), MPLBACKEND='Agg', MPLCONFIGDIR='/opt/mplconfig',
               PYTHONDONTWRITEBYTECODE='1', VC_REPO=REPO, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    cmd = [py, os.path.join(HERE, 'oracles', pid + '.py'), '--budget', str(budget), '--seed', str(seed), '--out', out] + list(extra)
    for f in (out, out + '.cur'):
        if os.path.exists(f): os.unlink(f)
    try:
        p = subprocess.run(cmd, env=env, cwd=REPO, capture_output=True, text=True, timeout=budget * 3 + 240)
    except subprocess.TimeoutExpired:
        return dict(evaluations=0, violations=[], error='oracle timed out')
    cur = out + '.cur'
    c = None
    if os.path.exists(cur):
        try: c = json.load(open(cur))
        except ValueError: pass
        os.unlink(cur)
    if not os.path.exists(out):
        if c and -p.returncode in (4, 6, 7, 8, 11):
            # the code under test took the process down (SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV) on this case
            return dict(evaluations=1, violations=[dict(c, what='the process died with signal %d' % -p.returncode)], error=None)
        return dict(evaluations=0, violations=[], error='oracle did not run: ' + p.stderr[-1500:])
    d = json.load(open(out))
    os.unlink(out)
    return d

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VC_JOBS', '7')))
    a = ap.parse_args()
    t0 = time.time()
    pid = a.pid
    tier = 'thorough' if a.thorough else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    cfg = config()[pid]
    work = os.path.join(HERE, 'work')
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    budget = cfg.get('oracle_budget', 12) * (10 if a.thorough else 1)
    box = {}
    ks = known(pid)
    th = None
    has_oracle = os.path.exists(os.path.join(HERE, 'oracles', pid + '.py'))
    outf = os.path.join(work, '%s.%d.json' % (pid, os.getpid()))
    if has_oracle:
        th = threading.Thread(target=lambda: box.update(r=oracle(pid, cfg, budget, seed, outf)))
        th.start()
    # ---- contracts
    from vc import verifier
    err = None
    try:
        mod = importlib.import_module('contracts.' + pid)
        tasks = list(mod.tasks())
        if a.thorough and hasattr(mod, 'thorough'):
            tasks += list(mod.thorough())
    except BaseException as e:
        mod, tasks, err = None, [], 'contracts not loadable: %r' % e
    limit = t0 + (400 if not a.thorough else 1500)
    found = []
    def deadline():
        # with a failing input in hand the verifier gets another 45 s to name the failed obligation
        if not found and box.get('r') and any(not is_known(ks, v) for v in box['r']['violations']): found.append(time.time())
        return min(limit, found[0] + 45) if found else limit
    results = verifier.run_tasks(tasks, jobs=a.jobs, deadline=deadline)
    # an undecided task (time, memory) is tried once more on its own with larger limits
    again = [i for i, r in enumerate(results) if r['err'] or any(o['status'] in ('unknown', 'skipped') for o in r['obs'])]
    again = [i for i in again if not any(o['status'] == 'refuted' for o in results[i]['obs'])
             and not (results[i]['err'] or '').startswith('Unsupported')]
    if again and not found and time.time() - t0 < 380:
        ts = [(tasks[i][0], tasks[i][1], dict((tasks[i][2] if len(tasks[i]) > 2 else {}), timeout=60000)) for i in again]
        for i, r in zip(again, verifier.run_tasks(ts, jobs=a.jobs, deadline=lambda m=min(t0 + 600, time.time() + 240): min(m, deadline() + 600 if not found else deadline()))):
            if not r['err'] and all(o['status'] == 'proved' for o in r['obs']):
                results[i] = r
    obs = [o for r in results for o in r['obs']]
    bad = []
    for r in results:
        if r['err']:
            bad.append(dict(func=r['qual'], label='(verification of the function)', status='undecided', detail=r['err']))
        for o in r['obs']:
            if o['status'] not in ('proved', 'skipped'):
                bad.append(o)
        if not r['err'] and not r['obs']:
            bad.append(dict(func=r['qual'], label='(vacuous)', status='no obligations generated', detail=''))
        elif not r['err'] and not r['covered']:
            bad.append(dict(func=r['qual'], label='(vacuous)', status='no path satisfying the precondition reaches the postcondition', detail=''))
    if err or not tasks:
        bad.append(dict(func=pid, label='(contracts)', status='no obligations', detail=err or ''))
    if th: th.join()
    orc = box.get('r') or dict(evaluations=0, violations=[], error=None if not has_oracle else 'oracle thread died')
    if orc.get('error') and not orc['violations']:
        bad.append(dict(func=pid, label='(oracle)', status='oracle failed', detail=orc['error']))
    # ---- counter-models and a longer search when an obligation failed without a concrete input
    viol = list(orc['violations'])
    if bad and not viol and has_oracle:
        cases = []
        for o in bad:
            for c, p in o.get('cex') or []:
                cases += ['--case', c, json.dumps(p)]
        if cases:
            viol = oracle(pid, cfg, 5, seed, outf, cases)['violations']
        if not viol and not any(o['label'] == '(oracle)' for o in bad):
            left = 800 - (time.time() - t0)
            if left > 40:
                o2 = oracle(pid, cfg, min(90, left / 4), seed + 1000, outf)
                orc['evaluations'] += o2['evaluations']
                viol = o2['violations']
    # ---- known findings
    new, old = [], []
    for v in viol: (old if is_known(ks, v) else new).append(v)
    for c, m, t in ks:
        print('KNOWN-FINDING: property=%s %s' % (pid, t))
    # ---- evidence
    backs, slow = {}, 0.0
    for o in obs:
        if o['status'] == 'proved':
            backs[o['backend']] = backs.get(o['backend'], 0) + 1
            slow = max(slow, o['time'])
    hashes = {}
    for r in results: hashes.update(r.get('hashes') or {})
    meta = config().get('_common', {})
    ev = dict(property=pid, tier=tier, seed=seed, level='proof',
              coverage=dict(obligations=len(obs), discharged=sum(o['status'] == 'proved' for o in obs),
                            checker_cmd='python3-vt /verif/run.py %s%s' % (pid, ' --thorough' if a.thorough else ''),
                            trusted_base=meta.get('trusted_base', []) + cfg.get('trusted', []),
                            back_ends=backs, solver_s=round(sum(r.get('solver', 0) for r in results), 2),
                            solver_queries=sum(r.get('queries', 0) for r in results), slowest_obligation_s=round(slow, 2),
                            functions_under_contract=[dict(function=r['qual'], obligations=len(r['obs']), discharged=sum(o['status'] == 'proved' for o in r['obs']),
                                                           paths=r['paths'], wall_s=round(r['wall'], 2)) for r in results],
                            source_sha256=hashes,
                            bounded_cross_check=dict(label='bounded, not counted as proved', evaluations=orc['evaluations'], per_case=orc.get('per_case', {}),
                                                     samples=orc.get('samples', {}))),
              assumptions=meta.get('assumptions', []) + cfg.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(new) + (1 if bad and not viol else 0))
    if cfg.get('bounded_parts'): ev['coverage']['bounded_parts'] = cfg['bounded_parts']
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s: %d obligations, %d discharged, %d tasks, oracle %d cases, %.1f s' % (pid, len(obs), ev['coverage']['discharged'], len(results), orc['evaluations'], time.time() - t0))
    for o in bad[:12]:
        print('UNDISCHARGED %s: %s [%s] %s' % (o['func'], o['label'], o['status'], o['detail'][:700]))
    # ---- verdict
    if not new and not bad:
        return 0
    if not new and viol and not bad:
        return 0
    rp = os.path.join(HERE, 'replay', '%s-%s.json' % (pid, hashlib.sha1(json.dumps([new, [b['label'] for b in bad]], sort_keys=True, default=str).encode()).hexdigest()[:10]))
    doc = dict(property=pid, obligations=[dict(function=o['func'], obligation=o['label'], status=o['status'], verifier_output=o['detail']) for o in bad])
    if new:
        doc.update(case=new[0]['case'], params=new[0]['params'], what=new[0]['what'], others=new[1:],
                   replay_with='%s %s --replay <this file>' % (VT if cfg.get('oracle_py') == 'vt' else VENV, os.path.join(HERE, 'oracles', pid + '.py')))
    with open(rp, 'w') as fh:
        json.dump(doc, fh, indent=1)
    if new:
        print('failing input: case %s %s: %s' % (new[0]['case'], json.dumps(new[0]['params'])[:1500], new[0]['what'][:800]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    else:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    return 1

if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        pid = sys.argv[1]
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        rp = os.path.join(HERE, 'replay', pid + '-crash.json')
        json.dump(dict(property=pid, obligations=[dict(function='checker', obligation='(run)', status='crash', verifier_output=traceback.format_exc())]), open(rp, 'w'))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        rc = 1
    sys.stdout.flush()
    sys.exit(rc)
