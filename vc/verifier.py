"""Contracts front end: runs a function of the translated module on symbolic inputs that satisfy its
precondition, along every path, and discharges every obligation of its contract."""
import json, multiprocessing, os, sys, time, traceback, hashlib
import z3
from . import sym, prover, engine, nps
from . import arr as A
from .sym import *
from .arr import *

class Ob:
    def __init__(self, func, label, status, t, backend, detail=''):
        self.func, self.label, self.status, self.time, self.backend, self.detail = func, label, status, t, backend, detail
    def d(self):
        return dict(func=self.func, label=self.label, status=self.status, time=round(self.time, 3), backend=self.backend, detail=self.detail)

class V:
    def __init__(self, func, opts=None):
        self.func = func
        self.eng = engine.Engine()
        self.eng.v = self
        self.obs = []
        self.paths = {'ret': 0, 'raise': 0, 'end': 0}
        self.covered = False
        self.opts = dict(timeout=20000)
        self.opts.update(opts or {})
        self.failfast = True
        self.expected_raises = ()
        self.reqs = []

    # ---- symbolic inputs (facts are static lemmas of the symbol)
    def int(self, name, lo=None, hi=None, np=False):
        t = z3.Int(fresh_name(name))
        if lo is not None: REG.add_static(str(t), t >= lo); self.reqs.append(t >= lo)
        if hi is not None: REG.add_static(str(t), t <= hi); self.reqs.append(t <= hi)
        return Num(t, kind='i', np=np)
    def dim(self, name, lo=0): return self.int(name, lo)
    def real(self, name, lo=None, hi=None, gt=None, lt=None, np=False):
        t = z3.Real(fresh_name(name))
        for c in ([t >= lo] if lo is not None else []) + ([t <= hi] if hi is not None else []) + ([t > gt] if gt is not None else []) + ([t < lt] if lt is not None else []):
            if STACK.items: ctx().assume(c)
            else: self.reqs.append(c)
        return Num(t, kind='f', np=np)
    def quot(self, a, b):
        """the number q with q*b == a when b != 0"""
        return Num(n_quot(lift(a).r(), lift(b).r()), kind='f')
    def bool(self, name): return B(z3.Bool(fresh_name(name)))
    def arr(self, name, shape, kind='f', fact=None):
        return nps.sym_arr(name, tuple(shape), kind, fact)
    def require(self, t):
        t = as_t(t)
        if STACK.items: ctx().assume(t_bool(t))
        else: self.reqs.append(t_bool(t))
    def idx(self, d, name='i'):
        """arbitrary index of an axis (assumed in range)"""
        s, c = skolem(mkdim(d), name)
        if STACK.items: ctx().assume(t_bool(c))
        else: self.reqs.append(t_bool(c))
        return inum(s) if not isinstance(s, PIx) else s

    # ---- obligations
    def ensure(self, label, goal, hints=(), timeout=None, extra_lemmas=(), extra=(), without=(), maxgen=()):
        if self.eng.quiet: return
        g = as_t(goal)
        key = (label,)
        if self.failfast and any(o.label == label and o.status != 'proved' for o in self.obs):
            self.obs.append(Ob(self.func, label, 'skipped', 0.0, '', 'an earlier path already failed'))
            return
        t0 = time.time()
        r = prover.prove(g, ctx().full_pc() + list(extra), hints=hints, timeout=timeout or self.opts['timeout'], extra_lemmas=extra_lemmas, without=without, maxgen=maxgen)
        det = ''
        if not r.ok:
            det = '%s; %s' % (r.status, r.reason)
            if r.model is not None:
                det += '; counter-model: ' + ', '.join('%s=%s' % (d, r.model[d]) for d in r.model.decls() if d.arity() == 0)[:1500]
            det += '; path: ' + ' & '.join(str(p).replace('\n', ' ')[:160] for p in ctx().pc[-8:])
        self.obs.append(Ob(self.func, label, 'proved' if r.ok else r.status, time.time() - t0, r.backend, det))
        return r.ok
    def fail(self, label, why):
        if self.eng.quiet: return
        self.obs.append(Ob(self.func, label, 'failed', 0.0, '', why))
    def unreachable(self, label, detail=''):
        r = self.ensure(label, False)

    def explore(self, fn, raises=None):
        """fn() runs on every path; `raises`: callable(exc)->goal that must hold when exc is raised (default: never)"""
        for kind, v, c in explore(fn, list(self.reqs), engine=self.eng):
            self.paths[kind] += 1
            if kind == 'raise':
                if raises is not None:
                    g = raises(v)
                    if g is not None:
                        self.ensure('raises only as specified', g)
                        continue
                tb = traceback.extract_tb(v.__traceback__)
                where = [f for f in tb if '/verif/' not in f.filename]
                loc = '%s:%s' % (where[-1].filename, where[-1].lineno) if where else ''
                n = len(self.obs)
                self.ensure('no exception', False)
                if len(self.obs) > n and self.obs[-1].status != 'proved':
                    self.obs[-1].detail = '%s: %s at %s; ' % (type(v).__name__, str(v)[:120], loc) + self.obs[-1].detail
            elif kind == 'ret':
                if not self.covered:
                    # vacuity guard: a path that reached the postcondition must not be contradictory
                    if prover.feasible(c.full_pc(), timeout=1500):
                        self.covered = True

def _run(task, q, outq):
    qual, fn, opts = task
    t0 = time.time()
    sym.reset_registry()
    REG.add_static('pi', *nps.REG_PI)
    prover._feas_memo.clear()
    v = V(qual, opts)
    err = None
    try:
        fn(v)
    except Unsupported as e:
        if os.environ.get('VC_DEBUG') == '2': traceback.print_exc()
        err = 'Unsupported: ' + str(e)
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/verif/' not in f.filename and not f.filename.startswith('<')]
        if where: err += ' [%s:%s]' % (where[-1].filename, where[-1].lineno)
    except PoisonUsed as e:
        err = 'Unsupported: loop-local variable %s read after its loop' % e.name
    except RecursionError as e:
        err = 'RecursionError'
    except MemoryError:
        err = 'MemoryError'
    except BaseException as e:
        err = 'translator error: %s: %s' % (type(e).__name__, str(e)[:300])
        if os.environ.get('VC_DEBUG'): traceback.print_exc()
    if err and os.environ.get('VC_DEBUG'):
        print(qual, err, file=sys.stderr)
    outq.put((q, dict(qual=qual, obs=[o.d() for o in v.obs], err=err, paths=v.paths, covered=v.covered,
              wall=time.time() - t0, solver=prover.STATS.time, queries=prover.STATS.queries, hashes=v.eng.hashes)))

def _child(task, i, conn, memlimit):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (memlimit, memlimit))
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    class Q:
        def put(self, x): conn.send(x)
    def main():
        try:
            _run(task, i, Q())
        except BaseException as e:
            conn.send((i, dict(qual=task[0], obs=[], err='crash: %r' % e, paths={}, covered=False, wall=0, solver=0, queries=0, hashes={})))
    t = threading.Thread(target=main)
    t.start(); t.join()
    conn.close()
    os._exit(0)

def run_tasks(tasks, jobs=8, deadline=None, memlimit=6 << 30):
    """tasks: [(qualified function + contract name, callable(V), opts)]; each in its own process"""
    ctxm = multiprocessing.get_context('fork')
    results = [None] * len(tasks)
    running = {}
    pending = list(range(len(tasks)))
    dl = deadline if callable(deadline) else (lambda d=deadline or time.time() + 600: d)
    while pending or running:
        deadline = dl()
        while pending and len(running) < jobs:
            i = pending.pop(0)
            r, w = ctxm.Pipe(False)
            t = tasks[i] if len(tasks[i]) == 3 else tuple(tasks[i]) + ({},)
            p = ctxm.Process(target=_child, args=(t, i, w, memlimit))
            p.start(); w.close()
            running[i] = (p, r)
        for i, (p, r) in list(running.items()):
            if r.poll(0.05):
                try:
                    _, res = r.recv()
                    results[i] = res
                except EOFError:
                    results[i] = None
                p.join(1)
                if p.is_alive(): p.kill()
                del running[i]
            elif not p.is_alive():
                del running[i]
            elif time.time() > deadline:
                p.kill()
                results[i] = dict(qual=tasks[i][0], obs=[], err='timeout', paths={}, covered=False, wall=0, solver=0, queries=0, hashes={})
                del running[i]
        if time.time() > deadline:
            for i in pending:
                results[i] = dict(qual=tasks[i][0], obs=[], err='timeout (not started)', paths={}, covered=False, wall=0, solver=0, queries=0, hashes={})
            pending = []
    for i, r in enumerate(results):
        if r is None:
            results[i] = dict(qual=tasks[i][0], obs=[], err='prover process died', paths={}, covered=False, wall=0, solver=0, queries=0, hashes={})
    return results
