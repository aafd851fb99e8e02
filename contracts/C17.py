"""SimpleRadiusPRM: the radius graph from exact k-nearest-neighbour tables, doubled and reused"""
import types
from vc.spec import *
from vc.engine import journal_class
from vc.loops import Invariant
from .prmc import World

class Exact:
    """contract of the neighbour back end: row i lists the nearest points of i (itself included unless `skip`), the last one is the
    farthest listed, and every point that is not listed is at least as far"""
    def __init__(self, w, skip):
        self.w, self.skip = w, skip
        self.k, self.data, self.done = inum(0), None, False
        self._oid = next(w.v.eng.serial)
    def __call__(self, name='pynndescent'): return self
    def new_graph_from_data(self, data, k):
        v, w = self.w.v, self.w
        S = w.prm.prm_samples
        v.ensure('the back end is asked about the samples', eq(data, S))
        k = Num(intt(lift(k).fin), kind='i')
        v.ensure('at least one neighbour is asked for', k >= 1)
        self.k, self.data, self.done = k, data, True
        return self.table(S)
    def update_graph_with_data(self, fresh):
        v, w = self.w.v, self.w
        S = w.prm.prm_samples
        if not self.done: raise RuntimeError('new_graph_from_data first')
        n0 = num(self.data.shape_[0])
        v.ensure('the back end is given the new samples', and_(eq(num(asarr(fresh).shape_[0]), num(S.shape_[0]) - n0), eq(fresh, S[n0:]), eq(self.data, S[:n0])))
        self.data = S
        return self.table(S)
    def table(self, S):
        v, w = self.w.v, self.w
        n = S.shape_[0]
        N = intt(dterm(n))
        kw = mkdim(mn(self.k, num(n) - (1 if self.skip else 0)))
        K = intt(dterm(kw))
        inv = z3.Function(fresh_name('rank'), z3.IntSort(), z3.IntSort(), z3.IntSort())
        T_ = v.arr('table', (n, kw), 'i', lambda ix, t: z3.And(t >= 0, t < N, *([t != intt(iterm(ix[0]))] if self.skip else [])))
        f = T_.snap()
        tab = lift(f((z3.Int('x'), z3.Int('y')))).fin.decl()
        dist = lambda i, j: lift(w.dist(S, Num(i, kind='i'), Num(j, kind='i'))).r()
        old = REG.applemma.get(tab.name())
        def lem(a):
            i, c = a.arg(0), a.arg(1)
            ok = z3.And(i >= 0, i < N, c >= 0, c < K)
            return (old(a) if old else []) + [z3.Implies(ok, z3.And(*([inv(i, a) == c] if c.decl().name() != inv.name() else []), dist(i, a) <= dist(i, tab(i, K - 1))))]
        REG.applemma[tab.name()] = lem
        def rank(a):
            i, j = a.arg(0), a.arg(1)
            if j.decl().name() == tab.name() and j.arg(0).eq(i): return []
            ok = z3.And(i >= 0, i < N, j >= 0, j < N, *([i != j] if self.skip else []))
            return [z3.Implies(ok, z3.And(a >= 0, a < (N - 1 if self.skip else N), z3.If(a < K, tab(i, a) == j, dist(i, tab(i, K - 1)) <= dist(i, j))))]
        REG.applemma[inv.name()] = rank
        D = Arr((n, kw), lambda ix: w.dist(S, Num(intt(iterm(ix[0])), kind='i'), f(ix)), 'f')
        self.w.last = types.SimpleNamespace(inv=lambda i, j: Num(inv(intt(lift(i).fin), intt(lift(j).fin)), kind='i'), kw=kw, T=T_)
        return T_.copy(), D
journal_class(Exact)

def close(w, S, r): return lambda i, j: and_(w.dist(S, i, j) <= r, w.visible(S, i, j))
def strictly(w, S, r, prm, cap): return lambda i, j: and_(prm.k_neighbors < cap, w.dist(S, i, j) < r, w.visible(S, i, j))

def check(v, w, prm, n, r, cap, n0=None):
    g, S = prm.prm_graph, prm.prm_samples
    v.ensure('one vertex per sample', and_(shape_is(S, (n, w.d)), eq(g.numberOfNodes(), n)))
    v.ensure('no pair of samples is joined twice', not g.multi)
    i, j = v.idx(n, 'i'), v.idx(n, 'j')
    e = and_(ne(i, j), g.A[i, j])
    v.ensure('an edge is no longer than the radius', imp(e, w.dist(S, i, j) <= r), maxgen=(0, 1, 2))
    v.ensure('an edge joins samples that see each other', imp(e, w.visible(S, i, j)), maxgen=(0, 1, 2))
    t = w.last
    hs = [hint(t.kw, t.inv(i, j)), hint(t.kw, t.inv(j, i))]
    if n0 is not None:
        # rows of the table of the new samples
        dn = t.T[n0:].shape_[0]
        hs += [hint(dn, i - num(n0)), hint(dn, j - num(n0))]
    v.ensure('unless the cap was reached, samples strictly within the radius that see each other are joined', imp(and_(ne(i, j), strictly(w, S, r, prm, cap)(i, j)), g.A[i, j]), hints=hs, maxgen=(0, 1, 2))

def setup(v, skip, abstract=False):
    d = v.dim('d', 1)
    w = World(v, d)
    m = w.load(lambda name='pynndescent': w.ann(name), abstract=abstract)
    r, cap = v.real('radius'), v.int('cap')
    def new():
        w.start()
        c0 = v.int('drawn', 0)
        w.sampler._move(intt(c0.fin), ('drawn', intt(c0.fin)))
        w.weight = None
        w.ann = Exact(w, skip)
        w.prm = m.SimpleRadiusPRM(r, w.check_motion, w.sampler, None, cap)
        k0 = v.int('k0', 1)
        w.prm.k_neighbors = k0
        return w.prm
    def attrs(): return [(w.prm, 'k_neighbors', 'k_neighbors'), (w.ann, 'k', 'k'), (w.ann, 'done', 'done'), (w.ann, 'data', 'data')]
    def ints(vals): return [n for n, x in vals.items() if numlike(x) and not isinstance(x, Arr) and lift(x).kind == 'i']
    def cands(vals, pre, k):
        return {'%s >= 1' % n: lift(vals[n]) >= 1 for n in ints(vals)}
    def variants(a, b, pre):
        n = num(w.prm.prm_samples.shape_[0])
        return {'%s grows, below the number of samples' % x: and_(lift(b[x]) > lift(a[x]), lift(a[x]) < n) for x in ints(a) if x in b and x not in ('k', 'done')}
    v.eng.loop_contracts.append(While(v, None, cands, variants, attrs=attrs))
    return w, new, r, cap

class While(Invariant):
    def match_for(self, *a): return None

def first(skip):
    def run(v):
        w, new, r, cap = setup(v, skip)
        n = v.dim('n', 2)
        def path():
            prm = new()
            w.arm(prm)
            prm.grow_to_n_samples(n)
            check(v, w, prm, n, r, cap)
        v.explore(path)
    return run

def again(skip):
    def run(v):
        w, new, r, cap = setup(v, skip)
        n0, more = v.dim('n0', 2), v.dim('more')
        n = mkdim(num(n0) + num(more))
        def path():
            v.eng.quiet += 1
            try:
                prm = new()
                prm.grow_to_n_samples(n0)
                k = v.int('kk', 1)
                prm.k_neighbors = k
                w.ann.k = k
            finally: v.eng.quiet -= 1
            S = prm.prm_samples
            w.settle(prm.prm_graph, close(w, S, r), strictly(w, S, r, types.SimpleNamespace(k_neighbors=k), cap))
            # queries answered before left unused vertex identifiers behind
            prm.prm_graph.bound = prm.prm_graph.bound + v.int('queries', 0) * 2
            w.arm(prm)
            prm.grow_to_n_samples(n)
            check(v, w, prm, n, r, cap, n0)
        v.explore(path)
    return run

def reset(v):
    w, new, r, cap = setup(v, False)
    n, n2 = v.dim('n', 2), v.dim('n2', 2)
    def path():
        v.eng.quiet += 1
        try:
            prm = new()
            prm.grow_to_n_samples(n)
        finally: v.eng.quiet -= 1
        prm.reset()
        v.ensure('nothing is left after a reset', and_(prm.num_vertices() == 0, prm.num_edges() == 0))
        k = v.int('kk', 1)
        prm.k_neighbors = k
        w.arm(prm)
        prm.grow_to_n_samples(n2)
        check(v, w, prm, n2, r, cap)
    v.explore(path)

def tasks():
    q = 'prm.SimpleRadiusPRM.'
    return [(q + 'grow_to_n_samples (first, tables list the point itself)', first(False)), (q + 'grow_to_n_samples (first, tables of other points)', first(True)),
            (q + 'grow_to_n_samples (again, tables list the point itself)', again(False)), (q + 'grow_to_n_samples (again, tables of other points)', again(True)),
            (q + 'reset', reset)]
