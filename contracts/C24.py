"""experiment drivers: sharding, saving after every trial, resuming.  The trial functions, the file system, pandas
and the generator are used through contracts; the driver's text runs as the body of one function."""
from vc.spec import *
from vc.sym import decide, ctx, simpi, intt, STACK, PathEnd
from vc.arr import Seq, iterm, as_seq, dim_max0, addk, SymStr, strided_len
from vc.engine import FStr, JDict, Opaque
from vc.loops import LoopContract, Poison, is_poison
import inspect, types

class Int:
    """text of an integer (a command line argument)"""
    def __init__(self, n): self.n = n
    def _as_int(self): return self.n

class State:
    """ghost state: the saved file, the generator's position, the trials run"""
    def __init__(self, v):
        self.v = v
        v.eng.register_obj(self) if False else None
        self.vals = dict(file=None, pos=z3.IntVal(0))
        self.calls = []
    def get(self, k): return self.vals[k]
    def set(self, k, x):
        cell = [x]
        def swap(self=self, cell=cell, k=k): self.vals[k], cell[0] = cell[0], self.vals[k]
        swap()
        if STACK.items: STACK.top.log_undo(swap, self, ('state', k))

class Rng:
    """numpy Generator: the k-th integer drawn from a seeded generator is a fixed function of k"""
    def __init__(self, w, seed):
        self.w, self.seed = w, seed
        w.rngs.append(self)
        self.cnt = z3.IntVal(0)
        self.w.v.eng.register_obj(self)
    def _move(self, new, what):
        cell = [new]
        def swap(self=self, cell=cell): self.cnt, cell[0] = cell[0], self.cnt
        swap()
        if STACK.items: STACK.top.log_undo(swap, self, what)
    def integers(self, low, high=None, size=None, **k):
        lo, hi = (num(0), lift(low)) if high is None else (lift(low), lift(high))
        if size is not None:
            n = mkdim(lift(size)); p = self.cnt
            self._move(simp_(self.cnt + intt(dterm(n))), ('drawn', intt(dterm(n))))
            return Arr((n,), lambda ix: self.seed_at(simp_(p + intt(iterm(ix[0]))), lo, hi), 'i')
        j = self.cnt
        self._move(simp_(self.cnt + 1), ('drawn', z3.IntVal(1)))
        return self.seed_at(j, lo, hi)
    def seed_at(self, j, lo, hi):
        I = z3.IntSort()
        f = z3.Function('draw', I, I, I, I, I)
        return Num(f(intt(self.seed.fin), intt(j), intt(lo.fin), intt(hi.fin)), kind='i', np=True)
    def __getattr__(self, n):
        if n.startswith('_') : raise AttributeError(n)
        raise Unsupported('Generator.%s' % n)
    def _count(self, evs):
        t = z3.IntVal(0)
        for e in evs:
            if e[0] == 'drawn': t = t + e[1]
        return t
    def _enter(self, j, c): self._move(simp_(self.cnt + intt(c) * intt(iterm(j))), ('enter',))
    def _fold(self, sm, n):
        ob = sm.cdelta.get(id(self))
        if ob is None: return
        t = simp_(intt(ob[1]) * intt(dterm(n)))
        self._move(simp_(self.cnt + t), ('drawn', t))
    _noread = False

def simp_(t): return z3.simplify(intt(t))

class IndexEq:
    """df.index == 0: one True per trial, since the rows of every trial are numbered from zero"""
    def __init__(self, w, n): self.w, self.n = w, n
    def sum(self): self.w.by_index = True; return Num(intt(self.n), kind='i', np=True)
    @property
    def values(self): return self
    def to_numpy(self): return self
    def _as_seq(self): raise Unsupported('rows of a data frame')

class Index:
    def __init__(self, w, n): self.w, self.n = w, n
    def __eq__(self, o):
        if lift(o) is None or lift(o).const() != 0: raise Unsupported('row numbers compared with something else than zero')
        return IndexEq(self.w, self.n)
    __hash__ = None
    @property
    def values(self): return self
    def to_numpy(self): return self
    def __getattr__(self, n): raise Unsupported('Index.%s' % n)

class Rows:
    """selected columns of a frame, duplicates possibly removed"""
    def __init__(self, fr, cols, uniq=False): self.fr, self.cols, self.uniq = fr, cols, uniq
    def unique(self): return Rows(self.fr, self.cols, True)
    def drop_duplicates(self, subset=None, **k):
        return Rows(self.fr, cols_of(subset) if subset is not None else self.cols, True)
    def count_(self):
        fr = self.fr
        if not self.uniq: return fr.rows()
        if set(self.cols) >= set(fr.w.keys): return fr.n          # a configuration lists every value once
        t = z3.Int(fresh_name('distinct'))
        STACK.top.assume(z3.And(t >= 1, t <= intt(fr.n)))
        return t
    @property
    def shape(self): return (Num(intt(self.count_()), kind='i'), len(self.cols))
    @property
    def size(self): return self.shape[0]
    def sym_len(self): return self.shape[0]
    def nunique(self): return Rows(self.fr, self.cols, True).shape[0]
    @property
    def ngroups(self): return Rows(self.fr, self.cols, True).shape[0]
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('DataFrame column operation %s' % n)

def cols_of(c):
    if isinstance(c, str): return [c]
    return [str(x) for x in list(c)]

class Frame:
    """the trials 0..n-1 of this task, in order, each with all its rows (at least one)"""
    def __init__(self, w, n): self.w, self.n = w, n
    def rows(self):
        f = z3.Function('rows', z3.IntSort(), z3.IntSort())(intt(self.n))
        STACK.top.assume(f >= intt(self.n))
        return f
    @property
    def shape(self): return (Num(intt(self.rows()), kind='i'), 9)
    def sym_len(self): return self.shape[0]
    @property
    def index(self): return Index(self.w, self.n)
    def __getitem__(self, c): return Rows(self, cols_of(c))
    def drop_duplicates(self, subset=None, **k): return Rows(self, cols_of(subset) if subset is not None else ['?'], subset is not None)
    def groupby(self, c, **k): return Rows(self, cols_of(c), True)
    def copy(self, **k): return Frame(self.w, self.n)
    def reset_index(self, drop=False, **k): self.w.lost_index = True; return Frame(self.w, self.n)
    def to_csv(self, path, index=True, **k):
        w = self.w
        if k: raise Unsupported('to_csv with %s' % sorted(k))
        w.v.ensure('the file is the one of this task', w.is_path(path))
        if index is not True: w.lost_index = True
        w.st.set('file', self)
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('DataFrame.%s' % n)

class TrialFrame(Frame):
    """what one call of the trial function returned"""
    def __init__(self, w, params):
        self.w, self.params, self.trial = w, params, None
    def __setitem__(self, c, x):
        if c != 'trial': raise Unsupported('column %s' % c)
        if self.trial is not None: raise Unsupported('trial column set twice')
        object.__setattr__(self, 'trial', x)
    def as_number(self, n):
        """the obligation that this is trial number n of the task"""
        w, v = self.w, self.w.v
        combo, exp = w.expected(n)
        names = set(self.params)
        v.ensure('a trial gets the parameters of its combination', names == set(exp))
        for k in sorted(exp):
            if k not in names: continue
            a, b = self.params[k], exp[k]
            v.ensure("a trial's %s is that of its combination%s" % (k, ' (the next draw of the task)' if k == 'rng_seed' else ''), same(a, b))
        v.ensure('the rows of a trial record its number', self.trial is not None and eq(lift(self.trial), lift(combo[-1])))
        return Frame(w, simp_(intt(n) + 1))
    def to_csv(self, path, **k):
        self.as_number(0).to_csv(path, **k)
    @property
    def n(self): return z3.IntVal(1)
    def copy(self, **k):
        t = TrialFrame(self.w, self.params); t.trial = self.trial
        return t

def same(a, b):
    if isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)): return as_goal(a == b)
    if isinstance(b, Given) or isinstance(a, Given): return a is b
    if lift(a) is None or lift(b) is None: return a is b
    return eq(lift(a), lift(b))
def as_goal(x): return x

class Given:
    """a value of the configuration that is only passed on"""
    def __init__(self, name): self.name = name

class Pandas:
    def __init__(self, w): self.w = w
    def read_csv(self, path, index_col=None, **k):
        w = self.w
        w.v.ensure('the file is the one of this task', w.is_path(path))
        if k: raise Unsupported('read_csv with %s' % sorted(k))
        f = w.st.get('file')
        if f is None: raise FileNotFoundError(path)
        if index_col is None or index_col is False: w.lost_index = True
        return Frame(w, f.n)
    def concat(self, fs, axis=0, ignore_index=False, **k):
        w = self.w
        if k: raise Unsupported('concat with %s' % sorted(k))
        if ignore_index: w.lost_index = True
        fs = [f for f in list(fs) if f is not None]
        r = None
        for f in fs:
            if isinstance(f, TrialFrame): r = f.as_number(r.n if r is not None else 0)
            elif r is None: r = Frame(w, f.n)
            else: raise Unsupported('concat of several result frames')
        return r
    def __getattr__(self, n): raise Unsupported('pandas.%s' % n)

class Driver(LoopContract):
    """the loop over the tasks: after k iterations the trials start..start+k-1 have been run in order, each saved"""
    def __init__(self, w): self.w = w
    def match_for(self, rt, it, body, get, set_, names, lid):
        pre = get()
        fr = [n for n in names if n in pre and (pre[n] is None or isinstance(pre[n], Frame))]
        if not fr: return None
        if len(fr) > 1: raise Unsupported('loop %s carries several frames' % lid)
        return (self.run(rt, as_seq(it), body, get, set_, names, lid, fr[0], pre),)
    def run(self, rt, seq, body, get, set_, names, lid, X, pre):
        w, v, eng = self.w, self.w.v, rt.eng
        n0 = z3.IntVal(0) if pre[X] is None else intt(pre[X].n)
        file0 = w.st.get('file')
        N = intt(dterm(seq.n))
        rngs = list(w.rngs)
        pos0 = [r.cnt for r in rngs]
        def head(k, c):
            first = decide(intt(k) == 0)
            for n in names:
                if n != X: set_(n, Poison(n))
            set_(X, pre[X] if first else Frame(w, simp_(n0 + intt(k))))
            w.st.set('file', file0 if first else Frame(w, simp_(n0 + intt(k))))
            for r, p, d in zip(rngs, pos0, c):
                r._move(simp_(p + d * intt(k)), ('enter',))
        # draws per iteration
        deltas = set()
        eng.quiet += 1
        try:
            saved = get()
            def fn():
                k, kc = skolem(seq.n, 'it')
                ctx().assume(t_bool(kc))
                head(k, [z3.IntVal(0)] * len(rngs))
                a = [r.cnt for r in rngs]
                r_ = body(seq.at(k))
                if r_[0] != 'next': raise PathEnd()
                return tuple(simp_(r.cnt - p) for r, p in zip(rngs, a))
            for kind, res, c in explore(fn, ctx().full_pc(), engine=eng):
                if kind == 'ret': deltas.add(tuple(str(x) for x in res)); dl = res
            for n, x in saved.items(): set_(n, x)
        finally:
            eng.quiet -= 1
        if len(deltas) != 1 or not all(z3.is_int_value(x) for x in dl): raise Unsupported('loop %s: iterations draw different numbers of seeds' % lid)
        if not decide(N > 0): return None
        if decide(z3.Bool(fresh_name('loopexit'))):
            head(simpi(N), dl)
            w.first, w.done = n0, N
            return None
        k, kc = skolem(seq.n, 'it')
        ctx().assume(t_bool(kc))
        head(k, dl)
        del w.st.calls[:]
        r = body(seq.at(k))
        if r[0] != 'next':
            v.ensure('no task is given up', False)
            raise PathEnd()
        v.ensure('one trial per task', len(w.st.calls) == 1)
        post = get()[X]
        if isinstance(post, TrialFrame): post = post.as_number(0)
        f = w.st.get('file')
        want = simp_(n0 + intt(k) + 1)
        v.ensure('the results hold every trial run so far', isinstance(post, Frame) and mkb(intt(post.n) == want))
        v.ensure('every trial is saved before the next one starts', isinstance(f, Frame) and mkb(intt(f.n) == want))
        raise PathEnd()

class World:
    def __init__(self, v, kind):
        self.v, self.kind = v, kind
        self.st = State(v)
        self.rngs = []
        self.by_index = self.lost_index = False
        self.keys = ['dim', 'trial'] + (['prm_type', 'delta_clearance'] if kind == 'narrow' else [])
        eng = v.eng
        v.eng.carry = _Live(self)
        self.t, self.T = v.int('task_id', 0), v.int('num_tasks', 1)
        v.require(self.t < self.T)
        self.trials = v.dim('n_trials', 0)
        self.exists = z3.Bool('exists')
        self.p = z3.Int('finished')
        self.cfg = self.config()
        self.combos = self.build()
        N = intt(dterm(self.combos.n))
        self.N = N
        t, T = intt(self.t.fin), intt(self.T.fin)
        self.lo = z3.If(N >= t, t, N)
        self.L = z3.Int('ntasks')
        v.reqs.append(z3.And(self.L >= 0, z3.Implies(N <= t, self.L == 0), z3.Implies(N > t, z3.And(self.L >= 1, T * (self.L - 1) < N - t, N - t <= T * self.L))))
        v.reqs.append(z3.And(self.p >= 1, self.p <= self.L))          # finished trials, when there is a file
        self.argv0 = 'config.json', 'results'
        self.stubs(eng)
    def lst(self, name, elem):
        n = self.v.dim('n_' + name, 0)
        f = z3.Function(name, z3.IntSort(), z3.IntSort() if elem == 'i' else z3.RealSort())
        return Seq(mkdim(n), lambda k: Num(f(intt(iterm(k))), kind=elem))
    def config(self):
        g = {k: Given(k) for k in ('delta', 'sample_schedule', 'neighbor_schedule', 'n_samples_per_check_round', 'ed_check_timeout', 'area_tol', 'prm_max_k_neighbors',
                                   'radius_sample_schedule', 'knn_sample_schedule', 'radius_prm_max_radius', 'knn_prm_max_neighbors')}
        g['n_trials'] = self.trials
        if self.kind == 'narrow':
            g['deltas'], g['radius_dims_to_test'], g['knn_dims_to_test'] = self.lst('deltas', 'f'), self.lst('rdims', 'i'), self.lst('kdims', 'i')
        else:
            g['dims_to_test'] = self.lst('dims', 'i')
        return g
    def build(self):
        g, r = self.cfg, as_seq(self.range_(self.trials))
        if self.kind != 'narrow': return product(g['dims_to_test'], r)
        return chain(product(JList(['radius']), g['deltas'], g['radius_dims_to_test'], r), product(JList(['knn']), g['deltas'], g['knn_dims_to_test'], r))
    def range_(self, n):
        from vc.engine import b_range
        return b_range(n)
    def expected(self, n):
        """parameters of trial number n of this task"""
        g = self.cfg
        i = simp_(intt(self.t.fin) + intt(n) * intt(self.T.fin))
        c = self.combos.at(i)
        seed = Rng.seed_at(types.SimpleNamespace(seed=self.t), intt(n), num(0), num(2 ** 32))
        if self.kind == 'knn':
            return c, dict(delta_clear=g['delta'], dim=c[0], sample_schedule=g['sample_schedule'], neighbor_schedule=g['neighbor_schedule'], rng_seed=seed)
        if self.kind == 'line':
            return c, dict(delta_clear=g['delta'], dim=c[0], rng_seed=seed, sample_schedule=g['sample_schedule'], n_samples_per_ed_check_round=g['n_samples_per_check_round'],
                           ed_check_timeout=g['ed_check_timeout'], area_tol=g['area_tol'], max_k_connection_neighbors=g['prm_max_k_neighbors'])
        rad = decide(t_bool(as_t(c[0] == 'radius')))
        return c, dict(delta_clear=c[1], dim=c[2], rng_seed=seed, sample_schedule=g['radius_sample_schedule' if rad else 'knn_sample_schedule'], prm_type=c[0],
                       max_connections=g['radius_prm_max_radius' if rad else 'knn_prm_max_neighbors'])
    def is_path(self, p):
        parts = getattr(p, 'parts', None)
        if parts is None: return False
        nums = [x for x in parts if not isinstance(x, str) and lift(x) is not None]
        return and_(any(x == self.argv0[1] for x in parts if isinstance(x, str)), or_(*[eq(lift(x), self.t) for x in nums]) if nums else False)
    def trial(self, real):
        sig = inspect.signature(real)
        def call(*a, **k):
            b = sig.bind(*a, **k)
            f = TrialFrame(self, dict(b.arguments))
            self.st.calls.append(f)
            return f
        return call
    def stubs(self, eng):
        w = self
        class F:
            def __enter__(s): return s
            def __exit__(s, *a): return False
            def close(s): pass
            def read(s): return s
        def open_(path, *a, **k):
            if path != w.argv0[0]: raise Unsupported('open of another file')
            return F()
        self.open = open_
        eng.stubs['json'] = types.SimpleNamespace(load=lambda f: JDict(list(w.cfg_view().items())), loads=lambda f: JDict(list(w.cfg_view().items())))
        eng.stubs['sys'] = types.SimpleNamespace(argv=['driver', Int(self.t), Int(self.T), *self.argv0])
        def exists(p):
            w.v.ensure('the file is the one of this task', w.is_path(p))
            return w.st.get('file') is not None
        eng.stubs['os'] = types.SimpleNamespace(path=types.SimpleNamespace(join=lambda *a: FStr(list(a)), exists=exists, isfile=exists))
        eng.stubs['pandas'] = Pandas(self)
        it = types.SimpleNamespace(product=product, chain=chain)
        for n in ('envs', 'prm', 'ann'):
            eng.stubs[n] = eng.stubs['nonasymptotic.' + n] = Opaque('nonasymptotic.' + n)      # used by the trial functions only
        eng.stubs['itertools'] = it
        eng.loop_contracts.append(Driver(self))
    def cfg_view(self):
        return {k: (JList(x) if isinstance(x, Seq) else x) for k, x in self.cfg.items()}

class _Live(list):
    """objects with a linear ghost counter: the generators of the current path"""
    def __init__(self, w): self.w = w
    def __iter__(self): return iter(self.w.rngs)

def product(*xs, repeat=1):
    """itertools.product: the last factor varies fastest"""
    ss = [as_seq(x) for x in xs] * repeat
    n = z3.IntVal(1)
    for s in ss: n = n * intt(dterm(s.n))
    def at(k):
        k = intt(iterm(k)); out = []
        for s in reversed(ss):
            if isinstance(s.n, int) and s.n == 1: out.append(s.at(0)); continue
            m = intt(dterm(s.n))
            out.append(s.at(simpi(k % m)))
            k = simp_(k / m)
        return tuple(reversed(out))
    return Seq(mkdim(simp_(n)), at)

def chain(*xs):
    from vc.arr import seq_concat
    return seq_concat(list(xs))

DRV = dict(knn=('exps/run_knn_radius_trial.py', 'knn_radius_trial'), line=('exps/run_straight_line_optimality_trial.py', 'straight_line_trial'),
           narrow=('exps/run_narrow_passage_clearance_trial.py', 'narrow_passage_clearance'))

def driver(kind, resume):
    rel, name = DRV[kind]
    def f(v):
        w = World(v, kind)
        v.eng.contracted[name] = w.trial
        npm = __import__('vc.nps', fromlist=['module']).module()
        class NP:
            def __getattr__(s, n):
                if n == 'random': return types.SimpleNamespace(default_rng=lambda seed=None: Rng(w, lift(seed)))
                return getattr(npm, n)
        v.eng.stubs['numpy'] = NP()
        m = v.eng.load(rel, script=(name,))
        m._ns['open'] = w.open
        def path():
            w.rngs[:] = []
            del w.st.calls[:]
            w.st.vals = dict(file=Frame(w, w.p) if resume else None)
            w.first = w.done = None
            m._ns['script__']()
            f = w.st.get('file')
            L = w.L
            if f is None: v.ensure('every trial of the task has been run and saved', mkb(L == 0))
            else: v.ensure('every trial of the task has been run and saved', mkb(intt(f.n) == L))
            if w.first is not None:
                v.ensure('resuming starts with the first unfinished trial' if resume else 'the first trial run is the first one of the task', mkb(w.first == (w.p if resume else 0)))
        v.explore(path)
        if w.by_index and w.lost_index: v.fail('the row numbers the count of finished trials relies on are kept', 'index dropped')
    return f

def partition(v):
    """the strides of all tasks cover every combination, and no combination twice"""
    N, T = v.dim('N', 0), v.int('T', 1)
    c, t, j, t2, j2 = (v.int(n, 0) for n in ('c', 't', 'j', 't2', 'j2'))
    def path():
        ctx().assume(t_bool(as_t(c < N)))
        ct, cj = c % T, c // T
        def count(x, name):
            L = z3.Int(name)
            ctx().assume(z3.And(L >= 0, z3.Implies(intt(N.fin) <= intt(x.fin), L == 0), z3.Implies(intt(N.fin) > intt(x.fin), z3.And(L >= 1, intt(T.fin) * (L - 1) < intt(N.fin) - intt(x.fin), intt(N.fin) - intt(x.fin) <= intt(T.fin) * L))))
            return Num(L, kind='i')
        v.ensure('a combination belongs to the task given by its number modulo the number of tasks', and_(ct >= 0, ct < T, cj >= 0, eq(ct + cj * T, c)))
        L = count(ct, 'L')
        v.ensure('... and is among the trials of that task', cj < L, extra=[], hints=[])
        ctx().assume(t_bool(as_t(and_(t < T, t2 < T, eq(t + j * T, t2 + j2 * T)))))
        v.ensure('no combination is run twice', and_(eq(t, t2), eq(j, j2)))
    v.explore(path)

def tasks():
    T = []
    for k in ('knn', 'line', 'narrow'):
        for r in (False, True):
            T.append(('%s [%s]' % (DRV[k][0], 'resumed' if r else 'from the start'), driver(k, r)))
    T.append(('sharding: the tasks partition the combinations', partition))
    return T
