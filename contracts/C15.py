"""SimpleFullConnRadiusPRM: the exact radius graph after every operation"""
from vc.spec import *
from .prmc import World

def check(v, w, prm, r, n, what=''):
    g, S = prm.prm_graph, prm.prm_samples
    v.ensure('one vertex per sample', and_(shape_is(S, (n, w.d)), eq(g.numberOfNodes(), n)))
    i, j = v.idx(n, 'i'), v.idx(n, 'j')
    v.ensure('two samples are joined exactly when they are close and mutually visible', imp(ne(i, j), iff(g.A[i, j], and_(w.dist(S, i, j) <= r, w.visible(S, i, j)))), maxgen=(1, 2, 3))

def returned(v, w, prm, D, r, n):
    S = prm.prm_samples
    ok = lambda i, j: and_(w.dist(S, i, j) <= r, w.visible(S, i, j))
    v.ensure('a list of distances is returned', isinstance(D, Arr) and D.ndim == 1)
    k = v.idx(D.shape_[0], 'k')
    v.ensure('every returned distance is that of an accepted in-range pair', exists(n, lambda i: exists(n, lambda j: and_(ok(i, j), eq(D[k], w.dist(S, i, j))))))
    i, j = v.idx(n, 'i'), v.idx(n, 'j')
    v.ensure('the distance of every accepted in-range pair is returned', imp(and_(ne(i, j), ok(i, j)), exists(D.shape_[0], lambda k: eq(D[k], w.dist(S, i, j)))))

def setup(v):
    d = v.dim('d', 1)
    w = World(v, d)
    m = w.load()
    r0 = v.real('r0')
    def new():
        w.start()
        w.weight = None
        return m.SimpleFullConnRadiusPRM(r0, w.check_motion, w.sampler)
    return w, new, r0

def first(v):
    w, new, r0 = setup(v)
    n = v.dim('n')
    def path():
        prm = new()
        w.arm(prm)
        D = prm.grow_to_n_samples(n)
        check(v, w, prm, r0, n)
        returned(v, w, prm, D, r0, n)
    v.explore(path)

def settled(v, w, new, n0, r):
    """any history: the state is what the samples and the radius say (the graph is forgotten and constrained by the invariant)"""
    v.eng.quiet += 1
    try:
        prm = new()
        prm.grow_to_n_samples(n0)
        prm.set_connection_radius(r)
    finally: v.eng.quiet -= 1
    w.arm(prm)
    assume(v, w, prm, r)
    return prm

def assume(v, w, prm, r):
    S = prm.prm_samples
    w.settle(prm.prm_graph, lambda i, j: and_(w.dist(S, i, j) <= r, w.visible(S, i, j)))

def again(v):
    w, new, r0 = setup(v)
    n0, m = v.dim('n0'), v.dim('more')
    n = n0 + m
    def path():
        r = v.real('r')
        prm = settled(v, w, new, n0, r)
        D = prm.grow_to_n_samples(n)
        check(v, w, prm, r, n)
        returned(v, w, prm, D, r, n)
    v.explore(path)

def refused(v):
    w, new, r0 = setup(v)
    n, m = v.dim('n'), v.dim('fewer', 1)
    def path():
        r = v.real('r')
        prm = settled(v, w, new, n + m, r)
        try: prm.grow_to_n_samples(n)
        except ArithmeticError:
            check(v, w, prm, r, n + m)
            return
        v.ensure('a roadmap does not shrink', False)
    v.explore(path)

def radius(v):
    w, new, r0 = setup(v)
    n = v.dim('n')
    def path():
        r, r2 = v.real('r'), v.real('r2')
        prm = settled(v, w, new, n, r)
        prm.set_connection_radius(r2)
        check(v, w, prm, r2, n)
    v.explore(path)

def reset(v):
    w, new, r0 = setup(v)
    n0, n = v.dim('n0'), v.dim('n')
    def path():
        r = v.real('r')
        prm = settled(v, w, new, n0, r)
        prm.reset()
        v.ensure('nothing is left after a reset', and_(prm.num_vertices() == 0, prm.num_edges() == 0))
        D = prm.grow_to_n_samples(n)
        check(v, w, prm, r, n)
        returned(v, w, prm, D, r, n)
    v.explore(path)

def tasks():
    q = 'prm.SimpleFullConnRadiusPRM.'
    return [(q + 'grow_to_n_samples (first)', first), (q + 'grow_to_n_samples (again)', again), (q + 'grow_to_n_samples (refused)', refused),
            (q + 'set_connection_radius', radius), (q + 'reset', reset)]
