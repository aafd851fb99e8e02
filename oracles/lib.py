"""Concrete oracle harness: runs the real code of the repository on generated cases and compares with an
independent reference.  Bounded; used (a) as a cross-check of the proofs on every run and (b) to find and
replay failing inputs.  A case is a named function of JSON parameters; `--replay FILE` runs one recorded case."""
import argparse, json, os, sys, time, traceback, random, signal

REPO = os.environ.get('VC_REPO', '/repo')
sys.path[:0] = [REPO, os.path.join(REPO, 'nonasymptotic')]
sys.dont_write_bytecode = True
import warnings, contextlib
DEVNULL = open(os.devnull, 'w')
warnings.simplefilter('ignore')

class Violation(Exception):
    pass

class CaseTimeout(BaseException):
    pass

def fail(msg, *a):
    raise Violation(msg % a if a else msg)

def expect(c, msg, *a):
    if not c:
        fail(msg, *a)

CASES = {}      # name -> (fn, gen, weight)

def case(gen, weight=1.0, fixed=(), timeout=20):
    """register fn(**params); gen(rng, i) -> params (dict) or None when exhausted; fixed: parameters always tried first"""
    def deco(fn):
        CASES[fn.__name__] = (fn, gen, weight, list(fixed), timeout)
        return fn
    return deco

def run_case(name, params):
    """-> None when the case passes, else a description"""
    fn, _, _, _, tmo = CASES[name]
    def on_alarm(*a):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, tmo)
    try:
        with contextlib.redirect_stdout(DEVNULL):
            fn(**params)
        return None
    except Violation as e:
        return str(e)
    except CaseTimeout:
        return 'did not finish within %d s' % tmo
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        at = [f for f in tb if REPO in f.filename]
        where = ' at %s:%s' % (os.path.relpath(at[-1].filename, REPO), at[-1].lineno) if at else ' at ' + '%s:%s' % (tb[-1].filename, tb[-1].lineno)
        return 'unexpected %s: %s%s' % (type(e).__name__, str(e)[:300], where)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--budget', type=float, default=10)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--replay')
    ap.add_argument('--out')
    ap.add_argument('--case', nargs=2, action='append', default=[])
    ap.add_argument('--only')
    a = ap.parse_args()
    out = dict(evaluations=0, per_case={}, violations=[], error=None)
    # the case under way is kept in a file: when the code under test takes the whole process down, the file names the case
    cur = open(a.out + '.cur', 'w') if a.out else None
    def run_case(name, params, run=globals()['run_case']):
        if cur:
            cur.seek(0)
            cur.truncate()
            cur.write(json.dumps(dict(case=name, params=params)))
            cur.flush()
        return run(name, params)
    if a.replay:
        d = json.load(open(a.replay))
        r = run_case(d['case'], d['params'])
        print('case %s %s' % (d['case'], json.dumps(d['params'])))
        print('VIOLATED: ' + r if r else 'holds')
        sys.exit(1 if r else 0)
    def done():
        s = json.dumps(out)
        if a.out:
            with open(a.out, 'w') as fh: fh.write(s)
            cur.close()
            os.unlink(a.out + '.cur')
        else:
            print(json.dumps(out, indent=1)[:4000])
        sys.exit(0)
    def note(name, params, r):
        out['violations'].append(dict(case=name, params=params, what=r))
    t0 = time.time()
    for name, p in a.case:
        p = json.loads(p)
        out['evaluations'] += 1
        r = run_case(name, p)
        if r: note(name, p, r)
    if a.case:
        done()
    names = [n for n in CASES if not a.only or n == a.only]
    for n in names:
        for p in CASES[n][3]:
            out['evaluations'] += 1
            out['per_case'][n] = out['per_case'].get(n, 0) + 1
            r = run_case(n, p)
            if r:
                note(n, p, r)
                break
    tot = sum(CASES[n][2] for n in names)
    for k, n in enumerate(names):
        fn, gen, w, _, _ = CASES[n]
        if gen is None or any(v['case'] == n for v in out['violations']):
            continue
        end = time.time() + a.budget * w / tot
        rng = random.Random('%d/%s' % (a.seed, n))
        i = 0
        while time.time() < end:
            p = gen(rng, i)
            i += 1
            if p is None:
                break
            out['evaluations'] += 1
            out['per_case'][n] = out['per_case'].get(n, 0) + 1
            out.setdefault('samples', {})
            if n not in out['samples']:
                out['samples'][n] = p if len(json.dumps(p)) < 600 else str(p)[:600]
            r = run_case(n, p)
            if r:
                note(n, p, r)
                break
    done()
