"""the experiment drivers, run as scripts in a scratch directory with a small stand-in for pandas; trials are
interrupted and resumed at every point"""
import os, sys, types, tempfile, shutil, json, ast, csv, io, math
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from prmlib import *
CASES.clear()
import numpy as np
from numbers import Number

# ---- pandas stand-in ------------------------------------------------------------------------------
class Col:
    def __init__(self, vals): self.vals = list(vals)
    def unique(self):
        out = []
        for x in self.vals:
            if x not in out: out.append(x)
        return np.array(out)
    def nunique(self): return len(self.unique())
    @property
    def values(self): return np.array(self.vals)
    def to_numpy(self): return self.values
    def tolist(self): return list(self.vals)
    to_list = tolist
    @property
    def shape(self): return (len(self.vals),)
    def __len__(self): return len(self.vals)
    def __iter__(self): return iter(self.vals)
    def __eq__(self, o): return np.array([x == o for x in self.vals], dtype=bool)
    def drop_duplicates(self): return Col(self.unique())
    def __getitem__(self, i): return self.vals[i]
class DataFrame:
    def __init__(self, data=None, columns=None, index=None):
        if isinstance(data, DataFrame): data, columns, index = data.rows_, data.columns, data.index_
        if isinstance(data, dict):
            columns = list(data)
            n = {len(x) for x in data.values() if not isinstance(x, (str, Number))}
            if len(n) > 1: raise ValueError('All arrays must be of the same length')
            n = n.pop() if n else 1
            rows = [[(x if isinstance(x, (str, Number)) else list(x)[i]) for x in data.values()] for i in range(n)]
        else:
            rows = [list(r) for r in (data or [])]
            w = {len(r) for r in rows}
            if len(w) > 1 or (w and columns is not None and w != {len(columns)}):
                raise ValueError('%d columns passed, passed data had %d columns' % (len(columns or []), max(w)))
        self.columns = list(columns or [])
        self.rows_ = rows
        self.index_ = list(index) if index is not None else list(range(len(rows)))
    @property
    def index(self): return np.array(self.index_)
    @property
    def shape(self): return (len(self.rows_), len(self.columns))
    @property
    def empty(self): return not self.rows_
    def __len__(self): return len(self.rows_)
    def __setitem__(self, c, x):
        vals = [x] * len(self.rows_) if isinstance(x, (str, Number)) or np.ndim(x) == 0 else list(x)
        if c in self.columns:
            j = self.columns.index(c)
            for r, y in zip(self.rows_, vals): r[j] = y
        else:
            self.columns.append(c)
            for r, y in zip(self.rows_, vals): r.append(y)
    def __getitem__(self, c):
        if isinstance(c, str): return Col([r[self.columns.index(c)] for r in self.rows_])
        if isinstance(c, (list, tuple)) and all(isinstance(x, str) for x in c):
            js = [self.columns.index(x) for x in c]
            return DataFrame([[r[j] for j in js] for r in self.rows_], list(c), self.index_)
        m = np.asarray(c)
        if m.dtype == bool: return DataFrame([r for r, k in zip(self.rows_, m) if k], self.columns, [i for i, k in zip(self.index_, m) if k])
        raise KeyError(c)
    def copy(self, deep=True): return DataFrame([list(r) for r in self.rows_], self.columns, self.index_)
    def drop_duplicates(self, subset=None, **k):
        js = [self.columns.index(x) for x in ([subset] if isinstance(subset, str) else subset or self.columns)]
        seen, rows, idx = [], [], []
        for r, i in zip(self.rows_, self.index_):
            t = [r[j] for j in js]
            if t not in seen: seen.append(t); rows.append(r); idx.append(i)
        return DataFrame(rows, self.columns, idx)
    def groupby(self, c, **k):
        g = types.SimpleNamespace(ngroups=len(self.drop_duplicates(c)))
        return g
    def reset_index(self, drop=False, **k):
        d = self.copy(); d.index_ = list(range(len(d.rows_))); return d
    def to_dict(self, orient): return [dict(zip(self.columns, r)) for r in self.rows_]
    def to_csv(self, path, index=True):
        with open(path, 'w', newline='') as f:
            w = csv.writer(f)
            w.writerow(([''] if index else []) + self.columns)
            for i, r in zip(self.index_, self.rows_): w.writerow(([i] if index else []) + [('' if isinstance(x, float) and math.isnan(x) else x) for x in r])
def num(s):
    for t in (int, float):
        try: return t(s)
        except ValueError: pass
    return float('nan') if s == '' else s
def read_csv(path, index_col=None):
    with open(path, newline='') as f: t = list(csv.reader(f))
    rows = [[num(x) for x in r] for r in t[1:]]
    if index_col is None: return DataFrame(rows, [c or 'Unnamed: 0' for c in t[0]])
    return DataFrame([r[:index_col] + r[index_col + 1:] for r in rows], t[0][:index_col] + t[0][index_col + 1:], [r[index_col] for r in rows])
def concat(fs, axis=0, ignore_index=False):
    fs = [f for f in fs if f is not None]
    cols = list(fs[0].columns)
    for f in fs[1:]: cols += [c for c in f.columns if c not in cols]
    rows, idx = [], []
    for f in fs:
        for r, i in zip(f.rows_, f.index_):
            d = dict(zip(f.columns, r)); rows.append([d.get(c, float('nan')) for c in cols]); idx.append(i)
    return DataFrame(rows, cols, None if ignore_index else idx)
pd = types.ModuleType('pandas')
pd.DataFrame, pd.read_csv, pd.concat = DataFrame, read_csv, concat
sys.modules['pandas'] = pd

# ---- running a driver -----------------------------------------------------------------------------
DRV = dict(knn=('exps/run_knn_radius_trial.py', 'knn_radius_trial'), line=('exps/run_straight_line_optimality_trial.py', 'straight_line_trial'),
           narrow=('exps/run_narrow_passage_clearance_trial.py', 'narrow_passage_clearance'))
class Crash(Exception): pass
CODE = {}
def code(kind):
    """the driver's text with the trial function replaced by a recorder of the same signature"""
    if kind in CODE: return CODE[kind]
    rel, name = DRV[kind]
    tree = ast.parse(open(os.path.join(REPO, rel)).read(), rel)
    body = []
    for s in tree.body:
        body.append(s)
        if isinstance(s, ast.FunctionDef) and s.name == name:
            body.append(ast.parse('%s = trial__(%s)' % (name, name)).body[0])
    tree.body = body
    ast.fix_missing_locations(tree)
    CODE[kind] = compile(tree, rel, 'exec')
    return CODE[kind]
def run(kind, task, T, cfg, out, rows, stop):
    """run one task; the trial calls it made, as dictionaries; `stop`: interrupted before that many trials"""
    import inspect
    calls = []
    def recorder(real):
        sig = inspect.signature(real)
        def f(*a, **k):
            b = sig.bind(*a, **k); b.apply_defaults()
            if stop is not None and len(calls) >= stop: raise Crash()
            p = dict(b.arguments)
            calls.append(p)
            cols = ['dim', 'n_samples', 'delta_clearance', 'seed'] + (['prm_type'] if kind == 'narrow' else [])
            m = rows[int(p['dim']) % len(rows)]
            return DataFrame([[p['dim'], 10 * (i + 1), p['delta_clear'], p['rng_seed']] + ([p['prm_type']] if kind == 'narrow' else []) for i in range(m)], cols)
        return f
    path = os.path.join(out, '..', 'config.json')
    with open(path, 'w') as f: json.dump(cfg, f)
    old = sys.argv
    sys.argv = [DRV[kind][0], str(task), str(T), path, out]
    try: exec(code(kind), {'__name__': '__main__', 'trial__': recorder, '__file__': os.path.join(REPO, DRV[kind][0])})
    except Crash: pass
    finally: sys.argv = old
    return calls
def combos(kind, cfg):
    r = range(cfg['n_trials'])
    if kind != 'narrow': return [(d, t) for d in cfg['dims_to_test'] for t in r]
    return [(p, c, d, t) for p in ('radius', 'knn') for c in cfg['deltas'] for d in cfg[p + '_dims_to_test'] for t in r]
def gen(rng, i):
    kind = ['knn', 'line', 'narrow'][i % 3]
    pick = lambda n: sorted(rng.sample([2, 3, 4, 6, 7, 10, 14, 20], n))
    cfg = dict(n_trials=rng.choice([1, 1, 2, 3, 5]))
    if kind == 'narrow': cfg.update(deltas=rng.sample([.5, .25, .125, .0625], rng.choice([1, 2])), radius_dims_to_test=pick(rng.choice([1, 2])), knn_dims_to_test=pick(rng.choice([1, 2, 3])),
        radius_sample_schedule=[100, 200], knn_sample_schedule=[50, 300, 400], radius_prm_max_radius=1.5, knn_prm_max_neighbors=17)
    else: cfg.update(delta=.5, dims_to_test=pick(rng.choice([1, 2, 3, 4])), sample_schedule=[100, 1000], neighbor_schedule=[32, 64], n_samples_per_check_round=11, ed_check_timeout=7.5, area_tol=.25, prm_max_k_neighbors=21)
    return dict(kind=kind, T=rng.choice([1, 1, 2, 3, 4, 7, 20]), cfg=cfg, rows=[rng.choice([1, 2, 3]) for _ in range(4)], stops=[rng.choice([0, 1, 1, 2, 3]) for _ in range(rng.choice([0, 1, 2, 3]))])
@case(gen, weight=4)
def sharding(kind, T, cfg, rows, stops):
    want = combos(kind, cfg)
    keys = (lambda p: (p['prm_type'], p['delta_clear'], p['dim'])) if kind == 'narrow' else (lambda p: (p['dim'],))
    got = []
    base = tempfile.mkdtemp(prefix='c24')
    try:
        for interrupted in ([False, True] if stops else [False]):
            out = os.path.join(base, 'out%d' % interrupted); os.mkdir(out)
            allc = []
            for t in range(T):
                calls = []
                for s in (stops if interrupted else []): calls += run(kind, t, T, cfg, out, rows, s)
                calls += run(kind, t, T, cfg, out, rows, None)
                mine = want[t::T]
                expect([keys(c) for c in calls] == [m[:-1] for m in mine], '%s task %d of %d%s ran %s, its combinations are %s', kind, t, T, ' (interrupted after %s trials)' % stops if interrupted else '', [keys(c) for c in calls], mine)
                for c, m in zip(calls, mine): check_params(kind, c, m, cfg)
                rng = np.random.default_rng(seed=t)
                seeds = [int(rng.integers(0, 2 ** 32)) for _ in mine]
                expect([int(c['rng_seed']) for c in calls] == seeds, '%s task %d%s: the trials do not use the seeds of an uninterrupted run', kind, t, ' (interrupted)' if interrupted else '')
                f = os.path.join(out, 'out%d.csv' % t)
                expect(os.path.exists(f) == bool(mine), '%s task %d: no output file', kind, t)
                if not mine: continue
                rec = read_csv(f, 0).to_dict('records')
                exp = [(m, s, i) for m, s in zip(mine, seeds) for i in range(rows[m[-2] % len(rows)])]
                r = [(((x['prm_type'], x['delta_clearance']) if kind == 'narrow' else ()) + (x['dim'], x['trial']), x['seed'], x['n_samples'] // 10 - 1) for x in rec]
                expect(r == [(tuple(m), s, i) for m, s, i in exp], '%s task %d%s: saved records %s, expected %s', kind, t, ' (interrupted after %s trials)' % stops if interrupted else '', r, exp)
                allc += mine
            expect(sorted(map(str, allc)) == sorted(map(str, want)), 'the tasks do not cover the combinations once')
    finally: shutil.rmtree(base)
def check_params(kind, c, m, cfg):
    if kind == 'narrow':
        r = m[0] == 'radius'
        e = dict(sample_schedule=cfg['radius_sample_schedule' if r else 'knn_sample_schedule'], max_connections=cfg['radius_prm_max_radius' if r else 'knn_prm_max_neighbors'])
    elif kind == 'knn': e = dict(delta_clear=cfg['delta'], sample_schedule=cfg['sample_schedule'], neighbor_schedule=cfg['neighbor_schedule'])
    else: e = dict(delta_clear=cfg['delta'], sample_schedule=cfg['sample_schedule'], n_samples_per_ed_check_round=cfg['n_samples_per_check_round'], ed_check_timeout=cfg['ed_check_timeout'], area_tol=cfg['area_tol'], max_k_connection_neighbors=cfg['prm_max_k_neighbors'])
    for k, x in e.items(): expect(c[k] == x, '%s trial %s: %s is %r instead of %r', kind, m, k, c[k], x)

# ---- the trials themselves ------------------------------------------------------------------------
def defs(kind):
    """the driver's imports and functions only"""
    rel, name = DRV[kind]
    tree = ast.parse(open(os.path.join(REPO, rel)).read(), rel)
    tree.body = [s for s in tree.body if isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef))]
    ns = {'__name__': 'driver'}
    exec(compile(tree, rel, 'exec'), ns)
    return ns, ns[name]
class KNN:
    def new_graph_from_data(self, X, k):
        d = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1)); o = np.argsort(d, axis=1, kind='stable')[:, :k]
        return o, np.take_along_axis(d, o, 1)
def gknn(rng, i):
    s = sorted(rng.sample([5, 8, 12, 16, 20], rng.choice([1, 2])))
    return dict(dim=rng.choice([2, 3, 5]), delta=rng.choice([.5, .25]), sched=s, nns=sorted(rng.sample([1, 2, 4, 5, 8, 12, 16], rng.choice([2, 3, 4])) + [3]), seed=rng.randint(0, 2 ** 32 - 1))
@case(gknn, weight=1)
def knn_trial(dim, delta, sched, nns, seed):
    nns = sorted(set(nns))
    ns, f = defs('knn')
    ns['get_ann'] = lambda name='': KNN()
    df = f(delta, dim, sched, nns, np.int64(seed))
    from nonasymptotic.envs import StraightLine
    env = StraightLine(dim, delta, seed=seed)
    exp = []
    for s in sched:
        X = np.array([env.sample_from_env() for _ in range(s)])
        D = np.sort(np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1)), axis=1)
        exp += [(s, n, float(D[:, n - 1].min())) for n in nns if n < s]
    rec = df.to_dict('records')
    expect([(r['n_samples'], r['n_neighbors']) for r in rec] == [e[:2] for e in exp], 'records for %s, expected %s', [(r['n_samples'], r['n_neighbors']) for r in rec], [e[:2] for e in exp])
    for r, e in zip(rec, exp):
        expect(r['dim'] == dim and r['delta_clearance'] == delta and r['seed'] == seed, 'record %s does not describe its trial', r)
        expect(abs(r['eff_rad'] - e[2]) < 1e-9, 'effective radius %r with %d samples and %d neighbours on seed %d, expected %r', r['eff_rad'], e[0], e[1], seed, e[2])
def gnar(rng, i):
    t = rng.choice(['radius', 'radius', 'knn'])
    s = sorted(rng.sample([2, 3, 6, 10, 14], rng.choice([1, 2])))
    return dict(t=t, dim=rng.choice([2, 3]), delta=rng.choice([.25, .45]), sched=s if t == 'radius' else [20, 26][:len(s)], conn=rng.choice([.0625, .25, 1., 2.]) if t == 'radius' else rng.choice([4, 8, 16]), seed=rng.randint(0, 2 ** 32 - 1))
@case(gnar, weight=.6, fixed=[dict(t='radius', dim=2, delta=.25, sched=[0, 5], conn=.25, seed=3)])
def narrow_trial(t, dim, delta, sched, conn, seed):
    ns, f = defs('narrow')
    df = f(delta, dim, np.int64(seed), sched, t, conn)
    rec = df.to_dict('records')
    expect([r['n_samples'] for r in rec] == sched, 'records for %s samples, expected one per entry of %s', [r['n_samples'] for r in rec], sched)
    for r in rec: expect(r['dim'] == dim and r['delta_clearance'] == delta and r['seed'] == seed and r['prm_type'] == t, 'record %s does not describe its trial', r)
if __name__ == '__main__': main()
