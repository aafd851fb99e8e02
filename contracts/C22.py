"""kuka separating-axis test on oriented boxes in space"""
from vc.spec import *
import itertools

F = 'exps/tamp_environment/kuka_carry/separating_axis.py'
SIGNS = list(itertools.product((-1, 1), repeat=3))
def mk(v, over=None):
    if over: v.eng.override[F] = over
    return v.eng.load(F)

def vertices(v):
    m = mk(v)
    n = v.dim('n')
    c, h, R = v.arr('c', (n, 3)), v.arr('h', (n, 3)), v.arr('R', (n, 3, 3))
    def path():
        r = m.compute_vertices_vectorized(c, h, R)
        v.ensure('eight corners per box', shape_is(r, (n, 8, 3)))
        p = v.idx(n)
        corner = lambda s: [c[p, x] + sum(num(s[k]) * h[p, k] * R[p, x, k] for k in range(3)) for x in range(3)]
        for s in SIGNS:
            e = corner(s)
            v.ensure('every centre plus/minus half extent along each axis is a corner', or_(*[and_(*[eq(r[p, q, x], e[x]) for x in range(3)]) for q in range(8)]))
        for q in range(8):
            v.ensure('every corner is centre plus/minus half extent along each axis', or_(*[and_(*[eq(r[p, q, x], corner(s)[x]) for x in range(3)]) for s in SIGNS]))
    v.explore(path)

def corners_contract(v):
    def f(centers, half_extents, orientations):
        c = asarr(centers)
        n = c.shape_[0]
        V = v.arr('V', (n, 8, 3))
        v.corners.append((centers, half_extents, orientations, V))
        return V
    return f

# np.cross stays opaque where only its use matters (same symbol in code and specification)
X = [z3.Function('cross_%d' % c, *([z3.RealSort()] * 7)) for c in range(3)]
def cross(a, b):
    xs = [lift(x).r() for x in (*a, *b)]
    return tuple(Num(f(*xs), kind='f', np=True) for f in X)
def np_cross(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != 2 or b.ndim != 2 or a.shape_[1] != 3 or b.shape_[1] != 3 or not A.same_dim(a.shape_[0], b.shape_[0]):
        raise Unsupported('cross of these shapes')
    sa, sb = a.snap(), b.snap()
    return Arr(a.shape_, lambda ix: A.pick(list(cross([sa((ix[0], k)) for k in range(3)], [sb((ix[0], k)) for k in range(3)])), ix[1]), 'f')

def dot(p, u): return p[0] * u[0] + p[1] * u[1] + p[2] * u[2]

def sat(v):
    v.corners = []
    m = mk(v, {'compute_vertices_vectorized': corners_contract(v)})
    m.np.cross = np_cross
    n = v.dim('n')
    a, b = v.arr('a', (n, 15)), v.arr('b', (n, 15))
    def path():
        v.corners.clear()
        r = m.separating_axis_theorem(a, b)
        v.ensure('one verdict per pair', shape_is(r, (n,)))
        v.ensure('corners of the first and of the second boxes are computed', len(v.corners) == 2)
        p = v.idx(n, 'p')
        for (c, h, R, V), x in zip(v.corners, (a, b)):
            v.ensure('corners of the box it was given', and_(*[eq(c[p, k], x[p, k]) for k in range(3)], *[eq(h[p, k], x[p, 3 + k]) for k in range(3)],
                                                             *[eq(R[p, j, k], x[p, 6 + 3 * j + k]) for j in range(3) for k in range(3)]))
        V1, V2 = v.corners[0][3], v.corners[1][3]
        P, Q = [[tuple(V[p, s, c] for c in range(3)) for s in range(8)] for V in (V1, V2)]
        def apart(u):
            d1, d2 = [dot(x, u) for x in P], [dot(x, u) for x in Q]
            return or_(and_(*[x < y for x in d1 for y in d2]), and_(*[y < x for x in d1 for y in d2]))
        for x, who in ((a, 'first'), (b, 'second')):
            for i in range(3):
                u = [x[p, 6 + 3 * k + i] for k in range(3)]
                v.ensure('a pair reported colliding is not separated by a face normal of the %s box' % who, imp(r[p], not_(apart(u))))
        # axes the theorem asks for: the face normals and the directions of the cross products of one normal of each
        cols = [[tuple(x[p, 6 + 3 * k + i] for k in range(3)) for i in range(3)] for x in (a, b)]
        axes = cols[0] + cols[1] + [direction(v, cross(y, z)) for y in cols[0] for z in cols[1]]
        v.ensure('a pair reported apart is separated by a face normal or a cross product of face normals', imp(not_(r[p]), or_(*[apart(u) for u in axes])))
    v.explore(path)

def direction(v, u):
    n = norm(3, lambda k: u[k.fin if isinstance(k.fin, int) else k.fin.as_long()])
    return tuple(ite(n > 0, v.quot(x, n), x) for x in u)

def hull(v):
    """box points project between the corners: corners strictly on one side of a plane mean the boxes have no common point"""
    c, d = v.real('c'), v.real('d')
    a, b = [v.real('a%d' % k) for k in range(3)], [v.real('b%d' % k) for k in range(3)]     # half extent times normal . direction
    s, t = [v.real('s%d' % k) for k in range(3)], [v.real('t%d' % k) for k in range(3)]
    def path():
        for x in s + t: v.require(and_(x >= -1, x <= 1))
        lo = [c + sum(num(e[k]) * a[k] for k in range(3)) for e in SIGNS]
        hi = [d + sum(num(e[k]) * b[k] for k in range(3)) for e in SIGNS]
        x, y = c + sum(s[k] * a[k] for k in range(3)), d + sum(t[k] * b[k] for k in range(3))
        for k in range(3):
            v.ensure('a coordinate moves the projection by at most the half extent', and_(s[k] * a[k] <= mx(a[k], -a[k]), t[k] * b[k] >= mn(b[k], -b[k])))
        m = c + sum(mx(a[k], -a[k]) for k in range(3)), d + sum(mn(b[k], -b[k]) for k in range(3))
        v.ensure('the extreme projections are those of corners', and_(or_(*[eq(m[0], x) for x in lo]), or_(*[eq(m[1], x) for x in hi])))
    v.explore(path)

def tasks():
    q = 'kuka_carry.separating_axis.'
    return [(q + 'compute_vertices_vectorized', vertices), (q + 'separating_axis_theorem', sat), (q + 'separating_axis_theorem (convexity lemma)', hull)]
