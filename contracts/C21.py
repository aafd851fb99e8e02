"""turtlebot separating-axis test on planar polygons"""
from vc.spec import *

F = 'exps/tamp_environment/turtlebot_move/separating_axis.py'
def mk(v, over=None):
    if over: v.eng.override[F] = over
    return v.eng.load(F)

# direction of a non-zero vector: unit(x, y) = s * (x, y) with a positive factor s depending on the vector only
S = z3.Function('dir_scale', z3.RealSort(), z3.RealSort(), z3.RealSort())
U = [z3.Function('dir_%d' % c, z3.RealSort(), z3.RealSort(), z3.RealSort()) for c in (0, 1)]
def unit(x, y):
    x, y = lift(x).r(), lift(y).r()
    return tuple(Num(u(x, y), kind='f', np=True) for u in U)
def unit_lemma(inst):
    """definition of unit, used only where an obligation needs it"""
    out = []
    for f, c in zip(U, (0, 1)):
        for t in inst.facts.apps.get(f.name(), {}).values():
            s = S(t.arg(0), t.arg(1))
            out += [s > 0, t == s * t.arg(c)]
    return out

R4 = [z3.RealSort()] * 5
DOT = z3.Function('dot2', *R4)
def dot(p, u):
    """p[0]*u[0] + p[1]*u[1]; opaque where only projections have to agree"""
    return Num(DOT(*[lift(x).r() for x in (*p, *u)]), kind='f', np=True)
def dot_lemma(inst):
    return [t == t.arg(0) * t.arg(2) + t.arg(1) * t.arg(3) for t in inst.facts.apps.get('dot2', {}).values()]

def polys(v, lead=()):
    """two polygons (or batches of polygons) whose vertices are pairwise distinct"""
    na, nb = v.dim('na', 3), v.dim('nb', 3)
    a, b = v.arr('a', tuple(lead) + (na, 2)), v.arr('b', tuple(lead) + (nb, 2))
    v.distinct = [distinct(a, na, len(lead)), distinct(b, nb, len(lead))]
    return na, nb, a, b

def distinct(a, n, p):
    """precondition, instantiated at the vertices an obligation mentions"""
    f = a.meta['fun']
    def lemma(inst):
        done = inst.done_dyn.setdefault(('distinct', f.name()), set())
        vs = {}
        for t in inst.facts.apps.get(f.name(), {}).values():
            ix = tuple(t.arg(i) for i in range(p + 1))
            vs[tuple(i.get_id() for i in ix)] = ix
        out = []
        for k1, x in vs.items():
            for k2, y in vs.items():
                if k1 < k2 and k1[:p] == k2[:p] and (k1, k2) not in done and len(done) < 200:
                    done.add((k1, k2))
                    rng = [z3.And(0 <= i, i < n.fin) for i in (x[p], y[p])]
                    out.append(z3.Implies(z3.And(*rng), z3.Or(x[p] == y[p], f(*x, 0) != f(*y, 0), f(*x, 1) != f(*y, 1))))
        return out
    return lemma

# ---- contracts of the helpers
def vec_normalize_contract(v):
    def f(vectors):
        x = asarr(vectors)
        ix = [v.idx(d, 'n') for d in x.shape_[:-1]]
        v.ensure('vectors to normalize do not vanish', or_(ne(x[tuple(ix) + (0,)], 0), ne(x[tuple(ix) + (1,)], 0)), extra_lemmas=v.distinct)
        sf = x.snap()
        def at(ix):
            u = unit(sf(ix[:-1] + (0,)), sf(ix[:-1] + (1,)))
            return A.pick(list(u), ix[-1])
        return Arr(x.shape_, at, 'f')
    return f

def normalize_contract(v):
    def f(vector):
        x, y = vector
        v.ensure('vectors to normalize do not vanish', or_(ne(x, 0), ne(y, 0)), extra_lemmas=v.distinct)
        return unit(x, y)
    return f

def project_contract(v):
    def f(vertices, axis):
        a = asarr(vertices)
        sf = a.snap()
        d = Arr((a.shape_[0],), lambda ix: dot([sf((ix[0], c)) for c in (0, 1)], axis), 'f')
        return JList([A.red_minmax(d, None, 'min'), A.red_minmax(d, None, 'max')])
    return f

def vec_project_contract(v):
    def f(vertices, axis):
        a, x = asarr(vertices), asarr(axis)
        (n, k, _), (m, l, _) = a.shape_, x.shape_
        v.ensure('as many axes rows as polygons', eq(dnum(n), dnum(m)))
        v.ensure('vertices and axes in the plane', a.shape_[2] == 2 and x.shape_[2] == 2)
        sa, sx = a.snap(), x.snap()
        d = Arr((n, k, l), lambda ix: dot([sa((ix[0], ix[1], c)) for c in (0, 1)], [sx((ix[0], ix[2], c)) for c in (0, 1)]), 'f')
        lo, hi = [A.red_minmax(d, 1, op).snap() for op in ('min', 'max')]
        return Arr((n, 2, l), lambda ix: A.pick([lo((ix[0], ix[2])), hi((ix[0], ix[2]))], ix[1]), 'f')
    return f

def edges_contract(v):
    def f(vertices):
        a = asarr(vertices)
        n = a.shape_[0]
        sf = a.snap()
        def edge(i):
            j = A.nix(nxt(inum(i), n).fin, n)
            return tuple(sf((j, c)) - sf((i, c)) for c in (0, 1))
        return JList(Seq(n, edge))
    return f

def normalize(v):
    m = mk(v)
    x = v.arr('x', (2,))
    def path():
        v.require(or_(ne(x[0], 0), ne(x[1], 0)))
        r = m.normalize(x)
        s = num(1) / norm(2, lambda k: x[k])
        v.ensure('normalize scales by a positive factor', and_(s > 0, eq(r[0], s * x[0]), eq(r[1], s * x[1])))
    v.explore(path)

def vec_normalize(v):
    m = mk(v)
    n, k = v.dim('n'), v.dim('k')
    x = v.arr('x', (n, k, 2))
    def path():
        v.require(forall(n, lambda i: forall(k, lambda j: or_(ne(x[i, j, 0], 0), ne(x[i, j, 1], 0)))))
        r = m.vec_normalize(x)
        v.ensure('one vector per vector', shape_is(r, (n, k, 2)))
        i, j = v.idx(n), v.idx(k)
        s = num(1) / norm(2, lambda c: x[i, j, c])
        v.ensure('vec_normalize scales by a positive factor', and_(s > 0, eq(r[i, j, 0], s * x[i, j, 0]), eq(r[i, j, 1], s * x[i, j, 1])))
    v.explore(path)

def project(v):
    m = mk(v)
    n = v.dim('n', 1)
    a = v.arr('a', (n, 2))
    x, y = v.real('x'), v.real('y')
    def path():
        r = m.project(a, (x, y))
        v.ensure('two numbers', len(r) == 2)
        i = v.idx(n)
        d = lambda i: dot((a[i, 0], a[i, 1]), (x, y))
        v.ensure('first is a lower bound of the projections', r[0] <= d(i), extra_lemmas=[dot_lemma])
        v.ensure('second is an upper bound of the projections', r[1] >= d(i), extra_lemmas=[dot_lemma])
        v.ensure('both are attained', and_(exists(n, lambda i: eq(r[0], d(i))), exists(n, lambda i: eq(r[1], d(i)))), extra_lemmas=[dot_lemma])
    v.explore(path)

def vec_project(v):
    m = mk(v)
    n, k, l = v.dim('n'), v.dim('k', 1), v.dim('l')
    a, x = v.arr('a', (n, k, 2)), v.arr('x', (n, l, 2))
    def path():
        r = m.vec_project(a, x)
        v.ensure('lowest and highest projection per pair and axis', shape_is(r, (n, 2, l)))
        p, i, q = v.idx(n), v.idx(k), v.idx(l)
        d = lambda i: dot((a[p, i, 0], a[p, i, 1]), (x[p, q, 0], x[p, q, 1]))
        v.ensure('first is a lower bound of the projections', r[p, 0, q] <= d(i), extra_lemmas=[dot_lemma])
        v.ensure('second is an upper bound of the projections', r[p, 1, q] >= d(i), extra_lemmas=[dot_lemma])
        v.ensure('both are attained', and_(exists(k, lambda i: eq(r[p, 0, q], d(i))), exists(k, lambda i: eq(r[p, 1, q], d(i)))), extra_lemmas=[dot_lemma])
    v.explore(path)

def edges(v):
    m = mk(v)
    n = v.dim('n', 1)
    a = v.arr('a', (n, 2))
    def path():
        r = m.vertices_to_edges(a)
        v.ensure('one edge per vertex', eq(lift(A.as_seq(r).n if not isinstance(A.as_seq(r).n, int) else num(A.as_seq(r).n)), n))
        i = v.idx(n)
        e = r[i]
        v.ensure('edge to the next vertex, the last one back to the first', and_(*[eq(e[c], a[nxt(i, n), c] - a[i, c]) for c in (0, 1)]))
    v.explore(path)

# ---- the property
def nxt(k, n): return ite(eq(k + 1, n), num(0), k + 1)
def normal(p, n, k):
    """edge k rotated by 90 degrees; p(k, c) is coordinate c of vertex k"""
    j = nxt(k, n)
    return (p(j, 1) - p(k, 1), p(k, 0) - p(j, 0))
def normal_u(p, n, k): return unit(*normal(p, n, k))
def pd(p, k, u): return dot((p(k, 0), p(k, 1)), u)
def below(p, i, q, j, u): return pd(p, i, u) < pd(q, j, u)
def apart(pa, na, pb, nb, u):
    """the projections of the two vertex sets on direction u are disjoint"""
    lo = forall(na, lambda i: forall(nb, lambda j: below(pa, i, pb, j, u)))
    hi = forall(na, lambda i: forall(nb, lambda j: below(pb, j, pa, i, u)))
    return or_(lo, hi)

def verdict(v, r, pa, na, pb, nb):
    """scale: comparing projections on unit(n) and on n is the same"""
    k, l = v.idx(na, 'k'), v.idx(nb, 'l')
    for name, u, e in (('first', normal_u(pa, na, k), 'a'), ('second', normal_u(pb, nb, l), 'b')):
        v.ensure('a pair reported colliding is not separated by an edge normal of the %s polygon' % name, imp(r, not_(apart(pa, na, pb, nb, u))),
                 hints=[hint(na + nb, k if e == 'a' else na + l)], maxgen=(2, 3))
    v.ensure('a pair reported apart is separated by an edge normal',
             imp(not_(r), or_(exists(na, lambda k: apart(pa, na, pb, nb, normal_u(pa, na, k))),
                              exists(nb, lambda k: apart(pa, na, pb, nb, normal_u(pb, nb, k))))), maxgen=(1, 2))

def scale(v):
    """comparing projections on unit(n) is comparing projections on n"""
    x, y, a, b, c, d = [v.real(n) for n in 'xyabcd']
    def path():
        u = unit(x, y)
        v.ensure('scaling an axis keeps the order of projections', iff(dot((a, b), u) < dot((c, d), u), a * x + b * y < c * x + d * y), extra_lemmas=[unit_lemma, dot_lemma])
        # a common point: convex combination of the vertices, so its projection lies between the extreme ones
    v.explore(path)

def single(v):
    m = mk(v, {'normalize': normalize_contract(v), 'project': project_contract(v), 'vertices_to_edges': edges_contract(v)})
    na, nb, a, b = polys(v)
    pa, pb = (lambda k, c: a[k, c]), (lambda k, c: b[k, c])
    def path():
        r = m.separating_axis_theorem(a, b)
        v.ensure('verdict is a truth value', isinstance(r, (bool, B)))
        verdict(v, r, pa, na, pb, nb)
    v.explore(path)

def batch(v):
    m = mk(v, {'vec_normalize': vec_normalize_contract(v), 'vec_project': vec_project_contract(v)})
    n = v.dim('n')
    na, nb, a, b = polys(v, (n,))
    def path():
        r = m.vec_separating_axis_theorem(a, b)
        v.ensure('one verdict per pair', shape_is(r, (n,)))
        l = v.idx(n, 'l')
        verdict(v, r[l], lambda k, c: a[l, k, c], na, lambda k, c: b[l, k, c], nb)
    v.explore(path)

def tasks():
    q = 'turtlebot_move.separating_axis.'
    return [(q + 'normalize', normalize), (q + 'vec_normalize', vec_normalize), (q + 'project', project), (q + 'vec_project', vec_project), (q + 'vertices_to_edges', edges),
            (q + 'normalize (scaling lemma)', scale), (q + 'separating_axis_theorem', single), (q + 'vec_separating_axis_theorem', batch)]
