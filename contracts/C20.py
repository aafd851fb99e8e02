"""nearest-neighbour adapters over the contracts of their back ends"""
from vc.spec import *
from vc.sym import decide, ctx, simpi, intt
from vc.arr import as_seq, iterm, Seq
from vc.engine import Opaque
import types

F = 'nonasymptotic/ann.py'

class File:
    """text the backend saved: a header line, then per row the number of its neighbours and (id, distance) interleaved"""
    def __init__(self, g): self.g, self.open_ = g, True
    def readlines(self):
        g = self.g
        n = Num(intt(dterm(g.n)), kind='i')
        def line(i):
            i = iterm(i)
            if isinstance(i, int) and i == 0: return Line(Seq(1, lambda k: n))
            r = simpi(intt(i) - 1)
            m = g.count(r)
            def tok(k):
                k = iterm(k)
                if isinstance(k, int) and k == 0: return m
                t = intt(k)
                return Num(z3.If(t % 2 == 1, z3.ToReal(g.id_(intt(r), (t - 1) / 2)), g.d_(intt(r), (t - 2) / 2)), kind='f')
            return Line(Seq(mkdim(1 + 2 * intt(m.fin)), tok))
        return JList(Seq(mkdim(1 + intt(dterm(g.n))), line))
    def read(self): raise Unsupported('file.read')
    def _as_seq(self): return self.readlines()
    def close(self): self.open_ = False
    def __enter__(self): return self
    def __exit__(self, *a): return False

class Line:
    """one line of text; its words"""
    def __init__(self, words): self.words = words
    def split(self, sep=None):
        if sep not in (None, ' '): raise Unsupported('split(%r)' % sep)
        return JList(self.words) if not isinstance(self.words.n, int) else JList([self.words.at(0)])
    def strip(self): return self
    rstrip = strip

class Backend:
    """contract of kgraph: build(K) computes, for every row, a list of at least K neighbours; save_text writes it"""
    def __init__(self, v):
        self.v, self.made, self.files = v, [], {}
        bk = self
        class KGraph:
            def __init__(s, data, metric, **k):
                s.data, s.metric, s.built = asarr(data).copy(), metric, None
                bk.made.append(s)
            def build(s, reverse=0, K=25, **k):
                s.K = lift(K)
                nm = fresh_name('kg')
                I = z3.IntSort()
                s.n = s.data.shape_[0]
                s.id_, s.d_, s.m_ = z3.Function('id' + nm, I, I, I), z3.Function('d' + nm, I, I, z3.RealSort()), z3.Function('m' + nm, I, I)
                K_ = intt(s.K.fin)
                REG.applemma[s.m_.name()] = lambda a: [a >= K_]
                REG.applemma[s.d_.name()] = lambda a: [a >= 0]
                s.count = lambda r: Num(s.m_(intt(r)), kind='i')
                s.built = True
            def save_text(s, path):
                if not s.built: raise RuntimeError('not built')
                bk.files[id(path)] = (path, s)
            def __getattr__(s, n): raise Unsupported('KGraph.%s' % n)
        self.KGraph = KGraph
    def open(self, path, mode='r', *a, **k):
        if id(path) not in self.files: raise FileNotFoundError(path)
        return File(self.files[id(path)][1])

class NNDescentStub:
    def __init__(self, v):
        self.made = []
        st = self
        class NNDescent:
            def __init__(s, data, metric='euclidean', metric_kwds=None, n_neighbors=30, **k):
                s.data, s.metric, s.k, s.opts, s.history = data, metric, n_neighbors, k, []
                s.n = asarr(data).shape_[0]
                s.fresh()
                st.made.append(s)
            def fresh(s):
                s.ids = v.arr('ids', (Num(intt(dterm(mkdim(s.n))), kind='i'), s.k), kind='i')
                s.dists = v.arr('dists', (Num(intt(dterm(mkdim(s.n))), kind='i'), s.k))
            @property
            def neighbor_graph(s): return (s.ids, s.dists)
            def update(s, xs_fresh=None, xs_updated=None, updated_indices=None):
                if xs_updated is not None or updated_indices is not None: raise Unsupported('update of existing points')
                s.history.append(xs_fresh)
                s.n = mkdim(intt(dterm(mkdim(s.n))) + intt(dterm(asarr(xs_fresh).shape_[0])))
                s.fresh()
            def __getattr__(s, n): raise Unsupported('NNDescent.%s' % n)
        self.NNDescent = NNDescent

class Path_:
    def __init__(self, *a): pass
    @property
    def parent(self): return self
    def __str__(self): return 'dir'
    def __truediv__(self, o): return self
    def mkdir(self, *a, **k): pass

def mk(v, kgraph=True):
    bk, py = Backend(v), NNDescentStub(v)
    st = v.eng.stubs
    st['pathlib'] = types.SimpleNamespace(Path=Path_)
    st['os'] = types.SimpleNamespace(path=types.SimpleNamespace(join=lambda *a: '/'.join(str(x) for x in a), exists=lambda p: True), makedirs=lambda *a, **k: None)
    st['uuid'] = types.SimpleNamespace(uuid4=lambda: 'unique')
    st['pynndescent'] = types.SimpleNamespace(NNDescent=py.NNDescent)
    st['kgraph'] = types.SimpleNamespace(KGraph=bk.KGraph) if kgraph else ImportError('No module named kgraph')
    m = v.eng.load(F)
    m._ns['open'] = bk.open
    m._ns['__file__'] = F
    return m, bk, py

def embedded(v, g, pts, n, d):
    """the points given to kgraph are pts, zero-padded to a multiple of four coordinates"""
    D = Num(intt(dterm(g.data.shape_[1])), kind='i')
    v.ensure('the backend gets every point', and_(len(g.data.shape_) == 2, eq(Num(intt(dterm(g.data.shape_[0])), kind='i'), n)))
    v.ensure('coordinates are padded to the next multiple of four', and_(eq(D % 4, 0), D >= d, D < d + 4))
    i, k = v.idx(n, 'i'), v.idx(D, 'k')
    v.ensure('the backend gets the given points in order, padded with zeros', eq(g.data[i, k], pts(i, k)))
    v.ensure('the metric is euclidean', g.metric == 'euclidean')

def table(v, g, r, n, k):
    ok = isinstance(r, tuple) and len(r) == 2
    v.ensure('a table of identifiers and one of distances', ok)
    if not ok: return
    E, D = r
    v.ensure('one row per point, one column per neighbour', and_(shape_is(E, (n, k)), shape_is(D, (n, k))))
    i, j = v.idx(n, 'i'), v.idx(k, 'j')
    v.ensure('the backend is asked for k neighbours', eq(g.K, k))
    v.ensure('identifiers as the backend reported them', eq(E[i, j], Num(g.id_(iterm(i.fin), iterm(j.fin)), kind='i')))
    dd = lift(D[i, j])
    v.ensure('Euclidean distances: the backend reports half their square', and_(finite(dd), dd >= 0, eq(dd * dd, 2 * Num(g.d_(iterm(i.fin), iterm(j.fin)), kind='f'))))

def kg_new(v):
    m, bk, py = mk(v)
    n, d, k = v.dim('n', 1), v.dim('d', 1), v.dim('k', 1)
    x = v.arr('x', (n, d))
    def path():
        del bk.made[:]; bk.files.clear()
        a = m.get_ann('kgraph')
        v.ensure('the requested adapter is returned when its backend is there', isinstance(a, m.KGraphANN))
        r = a.new_graph_from_data(x, k)
        v.ensure('one backend graph', len(bk.made) == 1)
        g = bk.made[-1]
        embedded(v, g, lambda i, c: ite(c < d, x.snap()((iterm(i.fin), iterm(mn(c, d - 1).fin))), num(0.0)), n, d)
        table(v, g, r, n, k)
    v.explore(path)

def kg_update(v):
    m, bk, py = mk(v)
    n, f, d, k = v.dim('n', 1), v.dim('f', 1), v.dim('d', 1), v.dim('k', 1)
    x, y = v.arr('x', (n, d)), v.arr('y', (f, d))
    def path():
        del bk.made[:]; bk.files.clear()
        a = m.get_ann('kgraph')
        a.new_graph_from_data(x, k)
        r = a.update_graph_with_data(y)
        v.ensure('the graph is rebuilt', len(bk.made) == 2)
        g = bk.made[-1]
        def pts(i, c):
            cc = iterm(mn(c, d - 1).fin)
            return ite(c < d, ite(i < n, x.snap()((iterm(i.fin), cc)), y.snap()((simpi(intt((i - n).fin)), cc))), num(0.0))
        embedded(v, g, pts, n + f, d)
        table(v, g, r, n + f, k)
    v.explore(path)

def py_new(v):
    m, bk, py = mk(v)
    n, d, k, seed = v.dim('n', 1), v.dim('d', 1), v.dim('k', 1), v.int('seed', 0)
    x = v.arr('x', (n, d))
    def path():
        del py.made[:]
        a = m.get_ann(*(() if decide(z3.Bool('default')) else ('pynndescent',)))
        v.ensure('the requested adapter is returned', isinstance(a, m.PyNNDescentANN))
        r = a.new_graph_from_data(x, k, seed, False)
        v.ensure('one backend index', len(py.made) == 1)
        g = py.made[-1]
        i, c = v.idx(n, 'i'), v.idx(d, 'c')
        v.ensure('the backend gets the given points', and_(shape_is(g.data, (n, d)), eq(asarr(g.data)[i, c], x[i, c])))
        v.ensure('the backend is asked for k neighbours with the given seed in the Euclidean metric', and_(eq(lift(g.k), k), eq(lift(g.opts.get('random_state', -1)), seed), g.metric == 'euclidean'))
        v.ensure('nothing is pruned from the neighbour table', and_(eq(lift(g.opts.get('diversify_prob', 1.0)), 0), eq(lift(g.opts.get('pruning_degree_multiplier', 1.5)), 1)))
        py_table(v, g, r, n, k)
    v.explore(path)

def py_table(v, g, r, n, k):
    ok = isinstance(r, tuple) and len(r) == 2
    v.ensure('a table of identifiers and one of distances', ok)
    if not ok: return
    v.ensure('one row per point, one column per neighbour', and_(shape_is(r[0], (n, k)), shape_is(r[1], (n, k))))
    i, j = v.idx(n, 'i'), v.idx(k, 'j')
    v.ensure("the backend's identifiers, unchanged", eq(r[0][i, j], g.ids[i, j]))
    v.ensure("the backend's distances, unchanged", eq(r[1][i, j], g.dists[i, j]))

def py_update(v):
    m, bk, py = mk(v)
    n, f, d, k = v.dim('n', 1), v.dim('f', 1), v.dim('d', 1), v.dim('k', 1)
    x, y = v.arr('x', (n, d)), v.arr('y', (f, d))
    def path():
        del py.made[:]
        a = m.get_ann()
        a.new_graph_from_data(x, k)
        r = a.update_graph_with_data(y)
        g = py.made[-1]
        v.ensure('the same index is extended', len(py.made) == 1 and len(g.history) == 1)
        if len(g.history) != 1: return
        i, c = v.idx(f, 'i'), v.idx(d, 'c')
        v.ensure('the backend gets the fresh points in order', and_(shape_is(g.history[0], (f, d)), eq(asarr(g.history[0])[i, c], y[i, c])))
        v.ensure('k is kept', eq(lift(g.k), k))
        py_table(v, g, r, n + f, k)
    v.explore(path)

def early(name):
    def f(v):
        m, bk, py = mk(v)
        y = v.arr('y', (v.dim('f', 1), v.dim('d', 1)))
        def path():
            a = m.get_ann(name)
            a.update_graph_with_data(y)
            v.fail('updating before building raises', 'no exception')
        v.explore(path, raises=lambda e: isinstance(e, RuntimeError) and not isinstance(e, NotImplementedError))
        v.covered = True
    return f

def names(v):
    m, bk, py = mk(v)
    def path():
        m.get_ann('no such library')
        v.fail('an unknown name raises', 'no exception')
    v.explore(path, raises=lambda e: isinstance(e, Exception))
    v.covered = True

def fallback(v):
    m, bk, py = mk(v, kgraph=False)
    def path():
        a = m.get_ann('kgraph')
        v.ensure('a missing optional backend falls back to the default adapter', isinstance(a, m.PyNNDescentANN))
    v.explore(path)

def tasks():
    q = 'ann.'
    return [(q + 'KGraphANN.new_graph_from_data', kg_new), (q + 'KGraphANN.update_graph_with_data', kg_update), (q + 'PyNNDescentANN.new_graph_from_data', py_new),
            (q + 'PyNNDescentANN.update_graph_with_data', py_update), (q + 'KGraphANN.update_graph_with_data [not built]', early('kgraph')),
            (q + 'PyNNDescentANN.update_graph_with_data [not built]', early('pynndescent')), (q + 'get_ann [unknown]', names), (q + 'get_ann [missing backend]', fallback)]
