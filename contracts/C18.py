"""queries: temporary vertices, search, and the roadmap as it was"""
import types
from vc.spec import *
from vc import arr as A_
from .prmc import World
from . import C16, C17, C19

def setup(v, kind):
    w, make = C19.setup(v, kind, True)
    return w, make

def roadmap(v, w, make, kind, n):
    """any roadmap of n samples: any edges, any settings"""
    with C19.Quiet(v):
        prm = make()
        prm.grow_to_n_samples(n)
    C19.prepare(v, w, prm, kind)
    if kind == 'knn-cert':
        prm.conn_r = None
        prm.certified_max_conn_r = v.real('certified')
    r = prm.certified_max_conn_r if kind == 'knn-cert' else prm.conn_r
    w.settle(prm.prm_graph, None)
    g = prm.prm_graph
    g.bound = g.bound + v.int('queries', 0) * 2
    return prm, r

def vec(q):
    f = q.snap()
    return lambda k: f((iterm(k),))
def qdist(w, S, q, i):
    s, t = w.row(S, i), vec(q)
    return w.norm(lambda k: lift(s(k)) - lift(t(k)))
def wanted(w, S, q, r):
    return lambda i: and_(qdist(w, S, q, i) <= r, w.vis(vec(q), w.row(S, i)))

def unchanged(v, w, prm, n, A0, S0):
    g, S = prm.prm_graph, prm.prm_samples
    i, j, k = v.idx(n, 'i'), v.idx(n, 'j'), v.idx(w.d, 'c')
    ix = (iterm(i.fin), iterm(j.fin))
    f = g.A.snap()
    v.ensure('the vertices of the roadmap are as before', eq(g.numberOfNodes(), n))
    v.ensure('the edges of the roadmap are as before', iff(mkb(as_t(f(ix))), mkb(as_t(A0(ix)))))
    v.ensure('the samples are as before', shape_is(S, (n, w.d)))
    v.ensure('the samples are as before', eq(S[i, k], S0[i, k]))

def best(kind):
    def run(v):
        w, make = setup(v, kind.split('-')[0])
        n = v.dim('n', 2)
        q = [v.arr('start', (w.d,)), v.arr('goal', (w.d,))]
        def path():
            prm, r = roadmap(v, w, make, kind, n)
            S, S0, A0 = prm.prm_samples, prm.prm_samples.copy(), prm.prm_graph.A.snap()
            dist, pts = prm.query_best_solution(*q)
            v.ensure('one search is made', len(w.searches) == 1)
            rec = w.searches[0]
            js, jt = rec['s'], rec['t']
            v.ensure('the search is between two added vertices', js is not None and jt is not None and js != jt)
            v.ensure('nothing else was added', sum(1 for x in rec['new'] if x[1]) == 2 and rec['new'][js][1] and rec['new'][jt][1])
            v.ensure('the search runs on the roadmap', rec['g'] is prm.prm_graph)
            i, j = v.idx(n, 'i'), v.idx(n, 'j')
            ix = (iterm(i.fin), iterm(j.fin))
            v.ensure('the roadmap is searched as it is', iff(mkb(as_t(rec['A'](ix))), mkb(as_t(A0(ix)))))
            for x, qq, name in ((js, q[0], 'start'), (jt, q[1], 'goal')):
                J = rec['new'][x][2]
                v.ensure('the %s is joined to exactly the samples it reaches' % name, iff(mkb(as_t(J((iterm(i.fin),)))), wanted(w, S0, qq, r)(i)))
            for x, o, wt, pc in w.pending:
                qq = q[0] if x == js else q[1]
                o = Num(o, kind='i')
                v.ensure('a query edge weighs the distance of its end points', and_(mkb(wt.isfin()), eq(wt, qdist(w, S0, qq, o))), extra=pc)
            v.ensure('the length found is returned', eq(dist, rec['dist']))
            P = rec['path']
            L = P.shape_[0]
            v.ensure('the samples along the path are returned', shape_is(pts, (L, w.d)))
            p, k = v.idx(L, 'p'), v.idx(w.d, 'c')
            v.ensure('the samples along the path are returned', eq(pts[p, k], S0[P[p], k]))
            unchanged(v, w, prm, n, A0, S0)
        v.explore(path)
    return run

def at(a, *ix):
    return a.snap()(tuple(A_.nix(x if isinstance(x, PIx) else iterm(lift(x).fin), d) for x, d in zip(ix, a.shape_)))

def tube(w, q):
    """distance of samples to a path on which the query points lie"""
    def f(S):
        S = asarr(S)
        n = S.shape_[0]
        v = w.v
        if S.ndim != 2: raise Unsupported('distance to the path')
        S = S.copy()
        F = z3.Function(fresh_name('topath'), z3.IntSort(), z3.RealSort())
        N = intt(dterm(n))
        def lem(a):
            i = Num(a.arg(0), kind='i')
            return [z3.Implies(z3.And(a.arg(0) >= 0, a.arg(0) < N), z3.And(a >= 0, *[a <= lift(qdist(w, S, x, i)).r() for x in q]))]
        REG.applemma[F.name()] = lem
        return Arr((n,), lambda ix: Num(F(intt(iterm(ix[0]))), kind='f', np=True), 'f')
    return f

def connections(kind, last):
    def run(v):
        w, make = setup(v, kind.split('-')[0])
        n = v.dim('n', 2)
        q = [v.arr('start', (w.d,)), v.arr('goal', (w.d,))]
        def path():
            with C19.Quiet(v): prm = make()
            prm.in_mp_exp_mode = True
            prm.dist_points_to_path = tube(w, q)
            with C19.Quiet(v):
                prm.grow_to_n_samples(n)
                last(v, prm)
            r = prm.certified_max_conn_r if kind == 'knn' and prm.conn_r is None else prm.conn_r
            S, S0, A0 = prm.prm_samples, prm.prm_samples.copy(), prm.prm_graph.A.snap()
            io, D, ids = prm.query_all_graph_connections(*q)
            rec = w.paths[-1]
            v.ensure('the shortest paths are those of the current roadmap', rec.g is prm.prm_graph and rec.fn is prm.prm_graph.A._fn)
            io, D, ids = asarr(io), asarr(D), asarr(ids)
            N = ids.shape_[0]
            v.ensure('one row per pair', and_(shape_is(ids, (N, 2)), shape_is(io, (N, 2, w.d)), shape_is(D, (N,))))
            want = [wanted(w, S0, x, r) for x in q]
            p, p2, k = v.idx(N, 'p'), v.idx(N, 'p2'), v.idx(w.d, 'c')
            a, b = at(ids, p, 0), at(ids, p, 1)
            v.ensure('every pair joins a sample the start reaches to one the goal reaches', and_(a >= 0, a < n, b >= 0, b < n, want[0](a), want[1](b)))
            i, j = v.idx(n, 'i'), v.idx(n, 'j')
            v.ensure('every such pair is there', imp(and_(want[0](i), want[1](j)), exists(N, lambda p: and_(eq(at(ids, p, 0), i), eq(at(ids, p, 1), j)))))
            v.ensure('no pair is there twice', imp(and_(eq(a, at(ids, p2, 0)), eq(b, at(ids, p2, 1))), mkb(A_.eq_ix(p, p2))))
            v.ensure('the coordinates are those of the samples', and_(eq(at(io, p, 0, k), S0[a, k]), eq(at(io, p, 1, k), S0[b, k])))
            v.ensure('the distance is that in the roadmap', eq(at(D, p), rec.d(a, b)))
            unchanged(v, w, prm, n, A0, S0)
        v.explore(path)
    return run

def after_grow(v, prm): pass
def after_radius(v, prm): prm.set_connection_radius(v.real('r'))
def after_count(v, prm):
    k = v.int('k', 1)
    v.require(k <= num(prm.max_k_neighbors))
    prm.set_connection_radius(v.real('r'))
    prm.set_nearest_neighbors(Num(k.fin, kind='i'))

def tasks():
    T = []
    for kind, s in (('full', 'SimpleFullConnRadiusPRM'), ('knn', 'SimpleNearestNeighborRadiusPRM'), ('knn-cert', 'SimpleNearestNeighborRadiusPRM'), ('thr', 'SimpleRadiusPRM')):
        T.append(('prm.%s.query_best_solution%s' % (s, ' (no radius set)' if kind == 'knn-cert' else ''), best(kind)))
    for kind, s in (('knn', 'SimpleNearestNeighborRadiusPRM'), ('thr', 'SimpleRadiusPRM')):
        T.append(('prm.%s.query_all_graph_connections (after growing)' % s, connections(kind, after_grow)))
    s = 'SimpleNearestNeighborRadiusPRM'
    T.append(('prm.%s.query_all_graph_connections (after setting the radius)' % s, connections('knn', after_radius)))
    T.append(('prm.%s.query_all_graph_connections (after setting the neighbour count)' % s, connections('knn', after_count)))
    return T
