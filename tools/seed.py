"""helper: make and confirm a planted bug.  seeds are described in a python file (list SEEDS of dicts:
id, property, needs, what_it_breaks, file, edits [(old,new)...] , py ('venv'|'vt'), demo (python source))"""
import sys, os, subprocess, json, shutil, runpy
V = '/verif/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
PRE = {'venv': '/opt/venv/bin/python', 'vt': 'python3-vt'}
def make(s, test=True):
    d = os.path.join(V, s['id'])
    os.makedirs(d, exist_ok=True)
    w = '/tmp/seedw'
    sh('rm -rf /tmp/seedw; cp -a /repo /tmp/seedw')
    for f, edits in s['edits'].items():
        p = os.path.join(w, f)
        t = open(p).read()
        for a, b in edits:
            assert t.count(a) == 1, (s['id'], t.count(a), a)
            t = t.replace(a, b)
        open(p, 'w').write(t)
    open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C /tmp/seedw diff').stdout)
    open(os.path.join(d, 'demo.py'), 'w').write(s['demo'])
    if s.get('stubs'):
        # stand-ins of networkit / pynndescent beside the demonstration
        t = open('/verif/oracles/prmlib.py').read().replace('from lib import *', '')
        open(os.path.join(d, 'stubs.py'), 'w').write(t)
    open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# exit 0 when the property holds on the demonstrated input, nonzero otherwise
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD:$PWD/nonasymptotic" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 MPLCONFIGDIR=/opt/mplconfig
exec %s "$here/demo.py"
''' % PRE[s.get('py', 'venv')])
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what_it_breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    a = sh('bash %s/demo.sh' % d, cwd='/repo'); b = sh('bash %s/demo.sh' % d, cwd=w)
    ok = a.returncode == 0 and b.returncode != 0
    print(s['id'], 'demo clean rc', a.returncode, 'patched rc', b.returncode, 'OK' if ok else 'BAD ' + a.stderr[-600:] + b.stderr[-600:])
    if ok: print('     ', (b.stdout + b.stderr).strip().splitlines()[-1][:200])
    if test and any('envs' in f or 'util' in f or 'sampler' in f for f in s['edits']):
        # stable tests of the patched copy
        r = sh('env PYTHONPATH=/tmp/seedw:/tmp/seedw/nonasymptotic MPLBACKEND=Agg MPLCONFIGDIR=/opt/mplconfig PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --ignore=tests/test_utils.py --ignore=tests/test_exps.py tests 2>&1 | tail -3', cwd=w)
        print('      tests:', r.stdout.strip().splitlines()[-1:] )
    sh('rm -rf /tmp/seedw')
if __name__ == '__main__':
    g = runpy.run_path(sys.argv[1])
    for s in g['SEEDS']:
        if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]: continue
        make(s)
