"""SimpleNearestNeighborRadiusPRM: the k-nearest-neighbour graph for the current settings"""
import types
from vc.spec import *
from .prmc import World

class Tables:
    """contract of the neighbour back end: row i lists distinct points, with distances that depend only on the pair"""
    def __init__(self, v, w): self.v, self.w = v, w
    def __call__(self, name='pynndescent'): return self
    def new_graph_from_data(self, data, k):
        v = self.v
        n, d = data.shape_
        k = mkdim(lift(k))
        v.ensure('the back end is asked about the samples', and_(eq(data, self.w.prm.prm_samples), lift(k) >= 0) if self.w.prm is not None else True)
        W = z3.Function(fresh_name('reported'), z3.IntSort(), z3.IntSort(), z3.RealSort())
        REG.applemma[W.name()] = lambda a: [a == W(a.arg(1), a.arg(0)), a >= 0]
        N = intt(dterm(n))
        T = v.arr('table', (n, k), 'i', lambda ix, t: z3.And(t >= 0, t < N))
        T.meta['nonneg'] = True
        f = T.snap()
        self.distinct(T, n, k)
        D = Arr((n, k), lambda ix: Num(W(intt(iterm(ix[0])), intt(lift(f(ix)).fin)), kind='f', np=True), 'f')
        t = types.SimpleNamespace(T=T.copy(), D=D, k=k, n=n, W=lambda i, j: Num(W(intt(lift(i).fin), intt(lift(j).fin)), kind='f', np=True))
        self.w.tables.add(t)
        return T, D
    def distinct(self, T, n, k):
        f = T.snap()
        name = lift(f((z3.Int('x'), z3.Int('y')))).fin.decl().name()
        # distinct entries of a row = the row has an inverse
        inv = z3.Function(fresh_name('pos'), z3.IntSort(), z3.IntSort(), z3.IntSort())
        old = REG.applemma.get(name)
        def lem(a):
            i, c = a.arg(0), a.arg(1)
            return (old(a) if old else []) + [z3.Implies(z3.And(c >= 0, c < intt(dterm(k))), inv(i, a) == c)]
        REG.applemma[name] = lem

def listed(t, i, j, k):
    """j is among the first k reported neighbours of i"""
    return exists(t.k, lambda c: and_(c < k, eq(t.T[i, c], j)))

def spec(w, S, t, k, r):
    def f(i, j):
        g = [or_(listed(t, i, j, k), listed(t, j, i, k)), w.visible(S, i, j)]
        if r is not None: g.append(t.W(i, j) <= r)
        return and_(*g)
    return f

def check(v, w, prm, n, t, k, r):
    g, S = prm.prm_graph, prm.prm_samples
    v.ensure('one vertex per sample', and_(shape_is(S, (n, w.d)), eq(g.numberOfNodes(), n)))
    v.ensure('no pair of samples is joined twice', not g.multi)
    i, j = v.idx(n, 'i'), v.idx(n, 'j')
    # an edge of the roadmap joins a sample to one of its nearest, close enough and visible:
    e = and_(ne(i, j), g.A[i, j])
    v.ensure('an edge joins samples that see each other', imp(e, w.visible(S, i, j)))
    if r is not None: v.ensure('an edge is no longer than the radius', imp(e, t.W(i, j) <= r))
    v.ensure('an edge joins a sample to one of the reported neighbours', imp(e, or_(listed(t, i, j, t.k), listed(t, j, i, t.k))))
    c = v.idx(t.k, 'c')
    v.ensure('an edge joins a sample to one of its nearest', imp(and_(e, eq(t.T[i, c], j)), or_(c < k, listed(t, j, i, k))), hints=[hint(t.T[:, k:].shape_[1], c - k)], maxgen=(1, 2))
    near = and_(c < k, eq(t.T[i, c], j), ne(i, j), w.visible(S, i, j), *([t.W(i, j) <= r] if r is not None else []))
    for e in (g.A[i, j], g.A[j, i]):
        v.ensure('a sample is joined to each of its nearest that is close enough and visible', imp(near, e), hints=[hint(t.T[:, :k].shape_[1], c), hint(t.T[:, k:].shape_[1], c - k)], maxgen=(1, 2))
    v.ensure('the complete graph is kept for later', len(w.files.m) == 1)
    full = spec(w, S, t, t.k, None)
    h = w.files.m[0][1] if w.files.m else g
    v.ensure('the graph kept for later has every edge', imp(ne(i, j), iff(h.A[i, j], full(i, j))))

def setup(v, truncate):
    d = v.dim('d', 1)
    w = World(v, d)
    tb = Tables(v, w)
    m = w.load(tb)
    K = v.dim('K', 1)
    def new():
        w.start()
        w.weight = None
        w.prm = None
        w.prm = m.SimpleNearestNeighborRadiusPRM(K, w.check_motion, w.sampler, None, truncate)
        w.weight = lambda a, b: w.tables[-1].W(a, b)
        return w.prm
    return w, new, K

def first(truncate):
    def run(v):
        w, new, K = setup(v, truncate)
        n = v.dim('n', 2)
        def path():
            prm = new()
            R = prm.grow_to_n_samples(n)
            t = w.tables[-1]
            v.ensure('one table is built', len(w.tables) == 1)
            v.ensure('the table has the requested number of neighbours', eq(lift(t.k), mn(K, n - 1)))
            check(v, w, prm, n, t, K, R[0] if truncate else None)
            if truncate:
                i = v.idx(n, 'i')
                last = lift(t.k) - 1
                v.ensure('the certified radius is at most every last reported distance', R[0] <= t.D[i, last])
                v.ensure('the certified radius is one of the last reported distances', exists(n, lambda i: eq(R[0], t.D[i, last])))
        v.explore(path)
    return run

def settled(v, w, new, K, n, radius):
    """any history (radius None: the last operation was to grow): the graph is what the table, the neighbour count and the radius say; the cached graph has every edge"""
    k, r = v.dim('k'), v.real('r')
    v.require(k <= K)
    v.eng.quiet += 1
    def settle(k, r):
        w.settle(prm.prm_graph, spec(w, S, t, k, r))
        for _, h in w.files.m: w.settle(h, spec(w, S, t, t.k, None))
    try:
        prm = new()
        prm.grow_to_n_samples(n)
        t, S = w.tables[-1], prm.prm_samples
        settle(K, None)
        if radius is None: return prm, t, K, None           # just grown
        prm.set_nearest_neighbors(k)
        settle(k, None)
        if radius: prm.set_connection_radius(r)
    finally: v.eng.quiet -= 1
    r = r if radius else None
    settle(k, r)
    return prm, t, k, r

def op(truncate, radius, do):
    def run(v):
        w, new, K = setup(v, truncate)
        n = v.dim('n', 2)
        def path():
            do(v, w, n, K, *settled(v, w, new, K, n, radius))
        v.explore(path)
    return run

def neighbours(v, w, n, K, prm, t, k, r):
    k2 = v.dim('k2')
    v.require(k2 <= K)
    prm.set_nearest_neighbors(k2)
    check(v, w, prm, n, t, k2, r)

def too_many(v, w, n, K, prm, t, k, r):
    k2 = v.dim('k2')
    v.require(k2 > K)
    try: prm.set_nearest_neighbors(k2)
    except ArithmeticError:
        check(v, w, prm, n, t, k, r)
        return
    v.ensure('asking for more neighbours than the roadmap was built with raises an error', False)

def radius(v, w, n, K, prm, t, k, r):
    r2 = v.real('r2')
    prm.set_connection_radius(r2)
    check(v, w, prm, n, t, k, r2)

def again(truncate):
    def f(v, w, n, K, prm, t, k, r):
        m = v.dim('more', 1)
        v.require(k >= 1)
        R = prm.grow_to_n_samples(n + m)
        t2 = w.tables[-1]
        v.ensure('one more table is built', len(w.tables) == 2)
        v.ensure('the table has the requested number of neighbours', eq(lift(t2.k), mn(k, n + m - 1)))
        check(v, w, prm, n + m, t2, k, R[0] if truncate else None)
    return f

def refused(v, w, n, K, prm, t, k, r):
    n2 = v.dim('n2')
    v.require(n2 < n)
    try: prm.grow_to_n_samples(n2)
    except ArithmeticError:
        check(v, w, prm, n, t, k, r)
        return
    v.ensure('a roadmap does not shrink', False)

def reset(v, w, n, K, prm, t, k, r):
    prm.reset()
    v.ensure('nothing is left after a reset', and_(prm.num_vertices() == 0, prm.num_edges() == 0, len(w.files.m) == 0))
    n2 = v.dim('n2', 2)
    v.require(k >= 1)
    prm.grow_to_n_samples(n2)
    t2 = w.tables[-1]
    v.ensure('the table has the requested number of neighbours', eq(lift(t2.k), mn(k, n2 - 1)))
    check(v, w, prm, n2, t2, k, None)

def tasks():
    q = 'prm.SimpleNearestNeighborRadiusPRM.'
    T = [(q + 'grow_to_n_samples (first, all neighbours)', first(False)), (q + 'grow_to_n_samples (first, certified radius)', first(True))]
    for rad, s in ((True, 'radius set'), (False, 'no radius')):
        T += [(q + 'set_nearest_neighbors (%s)' % s, op(False, rad, neighbours)), (q + 'set_nearest_neighbors (too many, %s)' % s, op(False, rad, too_many)),
              (q + 'set_connection_radius (%s)' % s, op(False, rad, radius)), (q + 'grow_to_n_samples (again, %s)' % s, op(False, rad, again(False))),
              (q + 'grow_to_n_samples (refused, %s)' % s, op(False, rad, refused)), (q + 'reset (%s)' % s, op(False, rad, reset))]
    T += [(q + 'grow_to_n_samples (again, just grown)', op(False, None, again(False))), (q + 'set_nearest_neighbors (just grown)', op(False, None, neighbours)), (q + 'reset (just grown)', op(False, None, reset))]
    T.append((q + 'grow_to_n_samples (again, certified radius)', op(True, True, again(True))))
    return T
