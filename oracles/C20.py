"""adapters against stand-in back ends (exact neighbour search), files only in a scratch directory"""
import os, sys, types, tempfile, math
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
import numpy as np
SCRATCH = tempfile.TemporaryDirectory(prefix='c20')

def exact(X, k):
    """k nearest rows of every row (itself included), with squared distances"""
    out = []
    for i in range(len(X)):
        d = [(sum((float(a) - float(b)) ** 2 for a, b in zip(X[i], X[j])), j) for j in range(len(X))]
        out.append(sorted(d)[:k])
    return out

class KGraph:
    made = []
    def __init__(self, data, metric, **k):
        if data.shape[1] % 4: raise RuntimeError('kgraph needs dimensions that are multiples of four')
        self.data, self.metric = np.array(data, dtype='float64'), metric
        self.g = None
        KGraph.made.append(self)
    def build(self, reverse=0, K=25, L=100, S=10, **k):
        self.K = int(K)
        n = len(self.data)
        self.g = exact(self.data, n)
        # kgraph may list more neighbours than asked for
        self.g = [row[:min(n, self.K + (i % 3))] for i, row in enumerate(self.g)]
    def save_text(self, path):
        if self.g is None: raise RuntimeError('not built')
        with open(path, 'w') as f:
            f.write('%d\n' % len(self.g))
            for row in self.g:
                f.write(' '.join([str(len(row))] + ['%d %r' % (j, d2 / 2) for d2, j in row]) + '\n')

class NNDescent:
    made = []
    def __init__(self, data, metric='euclidean', n_neighbors=30, random_state=None, **k):
        self.data, self.metric, self.k, self.seed = np.array(data), metric, int(n_neighbors), random_state
        NNDescent.made.append(self)
    @property
    def neighbor_graph(self):
        g = exact(self.data, self.k)
        return np.array([[j for _, j in r] for r in g], dtype='int32'), np.array([[math.sqrt(d) for d, _ in r] for r in g], dtype='float32')
    def update(self, xs_fresh=None, **k):
        self.data = np.vstack([self.data, np.array(xs_fresh)])

pyn = types.ModuleType('pynndescent'); pyn.NNDescent = NNDescent; pyn.__version__ = '0'
kgr = types.ModuleType('kgraph'); kgr.KGraph = KGraph
sys.modules['pynndescent'] = pyn

def load(have_kgraph=True):
    for k in [k for k in sys.modules if k == 'kgraph' or k.endswith('ann')]: del sys.modules[k]
    sys.modules['kgraph'] = kgr if have_kgraph else None
    import importlib
    m = importlib.import_module('nonasymptotic.ann')
    m.TEMP_DIR = SCRATCH.name
    return m

def adapter(name, have=True):
    m = load(have)
    a = m.get_ann(name)
    if hasattr(a, 'save_txt_path'): a.save_txt_path = os.path.join(SCRATCH.name, os.path.basename(a.save_txt_path))
    return m, a

def gen(rng, i):
    d = rng.choice([1, 2, 3, 4, 5, 7, 8, 9])
    n = rng.choice([4, 5, 8, 12])
    pt = lambda: [rng.randint(-20, 20) / rng.choice([1, 2, 4]) for _ in range(d)]
    return dict(name=rng.choice(['kgraph', 'pynndescent']), pts=[pt() for _ in range(n)], k=rng.randint(1, n), fresh=[[pt() for _ in range(rng.choice([1, 2, 6]))] for _ in range(rng.choice([0, 1, 2]))])

def check(name, r, X, k):
    E, D = np.asarray(r[0]), np.asarray(r[1], dtype=float)
    expect(E.shape == (len(X), k) and D.shape == (len(X), k), 'table of shape %s/%s for %d points and %d neighbours', E.shape, D.shape, len(X), k)
    for i, row in enumerate(exact(X, k)):
        expect([int(j) for j in E[i]] == [j for _, j in row], '%s: row %d lists %s, the backend reported %s', name, i, list(E[i]), [j for _, j in row])
        for c, (d2, j) in enumerate(row):
            expect(abs(D[i, c] - math.sqrt(d2)) <= 1e-5 * (1 + math.sqrt(d2)), '%s: distance from %d to %d is %r, expected %r', name, i, j, D[i, c], math.sqrt(d2))

@case(gen, weight=3)
def tables(name, pts, k, fresh):
    m, a = adapter(name)
    X = np.array(pts, dtype=float)
    keep = X.copy()
    r = a.new_graph_from_data(X, k)
    check(name, r, X, k)
    expect(np.array_equal(X, keep), 'the given points were changed')
    for f in fresh:
        f = np.array(f, dtype=float)
        r = a.update_graph_with_data(f)
        X = np.vstack([X, f])
        check(name + ' after an update', r, X, k)
    if name == 'kgraph':
        g = KGraph.made[-1]
        d = X.shape[1]
        expect(g.metric == 'euclidean' and g.data.shape == (len(X), -(-d // 4) * 4), 'backend got an array of shape %s', g.data.shape)
        expect(np.array_equal(g.data[:, :d], X) and not g.data[:, d:].any(), 'backend did not get the given points padded with zeros')
    else:
        g = NNDescent.made[-1]
        expect(g.metric == 'euclidean' and np.array_equal(g.data, X), 'backend did not get the given points')

def gseed(rng, i): return dict(seed=rng.randint(0, 2 ** 32 - 1))
@case(gseed, weight=.3)
def seeded(seed):
    m, a = adapter('pynndescent')
    a.new_graph_from_data(np.arange(8.).reshape(4, 2), 2, seed, False)
    expect(NNDescent.made[-1].seed == seed, 'the seed given to the backend is %r', NNDescent.made[-1].seed)

def once(rng, i): return dict(name=['kgraph', 'pynndescent'][i]) if i < 2 else None
@case(once, weight=.1)
def order(name):
    m, a = adapter(name)
    try: a.update_graph_with_data(np.zeros((2, 2)))
    except RuntimeError: pass
    else: fail('%s: updating before building does not raise', name)
def onlyone(rng, i): return dict() if i < 1 else None
@case(onlyone, weight=.1)
def factory():
    m = load()
    expect(type(m.get_ann('kgraph')) is m.KGraphANN and type(m.get_ann('pynndescent')) is m.PyNNDescentANN and type(m.get_ann()) is m.PyNNDescentANN, 'wrong adapter for a name')
    for bad in ['', 'KGRAPH', 'exact', 'kgraph ', None]:
        try: m.get_ann(bad)
        except Exception: pass
        else: fail('unknown adapter name %r accepted', bad)
    m = load(False)
    expect(type(m.get_ann('kgraph')) is m.PyNNDescentANN, 'no fallback when the optional backend is missing')
if __name__ == '__main__': main()
