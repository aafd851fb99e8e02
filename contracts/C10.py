"""sampler.py: the boundary handed to the triangulator and the draw of a triangle and of a point in it.
shapely's accessors, `triangle` and the generator are used through contracts; rings may have any length and the
triangulation any number of triangles, the number of rings is the task's (bounded)."""
import types
from vc.spec import *
from vc import nps
from vc.sym import ctx, simpi, intt
from vc.arr import _n, iterm, dterm, same_dim
from vc.engine import Opaque

class Objs:
    """one-dimensional numpy array of geometries (a known number of them)"""
    def __init__(self, items): self.items = list(items)
    @property
    def size(self): return len(self.items)
    @property
    def shape(self): return (len(self.items),)
    def __len__(self): return len(self.items)
    def __iter__(self): return iter(self.items)
    def _concrete_iter(self): return list(self.items)
    def __ne__(self, o):
        if isinstance(o, Objs) and o.items == [None] : return [x is not None for x in self.items]
        raise Unsupported('comparison of geometry arrays')
    def __getitem__(self, k):
        if isinstance(k, list) and len(k) == len(self.items): return Objs(x for x, b in zip(self.items, k) if b)
        if isinstance(k, (int, Num)): return self.items[int(k)]
        if isinstance(k, slice): return Objs(self.items[k])
        raise Unsupported('index into geometries')
    __hash__ = None

class Ring:
    """closed ring of L >= 4 points, the last one is the first"""
    def __init__(self, v, name):
        self.n = v.dim(name + '.len', 4)
        N = intt(dterm(mkdim(self.n)))
        f = z3.Function(name, z3.IntSort(), z3.IntSort(), z3.RealSort())
        self.coords = Arr((mkdim(self.n), 2), lambda ix: Num(f(z3.If(intt(iterm(ix[0])) == N - 1, 0, intt(iterm(ix[0]))), intt(iterm(ix[1]))), kind='f'), 'f')
class Pts:
    """representative points of regions, one each"""
    def __init__(self, n, f): self.n, self.f = n, f
class Pt:
    def __init__(self, *a):
        if len(a) == 1: a = [a[0][0], a[0][1]]
        self.x, self.y = a

class Bounded(Exception):
    """the obligations on the boundary are done"""

def setup(v, parts, multi, sampling):
    """parts: holes of each part"""
    rep = {}
    w = types.SimpleNamespace(rings=[], data=None, tri=None, regions=None, order=[], sel=None)
    class Polygon:
        def __init__(self, shell=None, holes=()):
            self.exterior, self.interiors = shell, list(holes)
            self.rep = lambda c: Num(z3.Real('rep%d.%d' % (id_of(self), c)), kind='f')
    ids = {}
    def id_of(p): return ids.setdefault(id(p), (len(ids), p))[0]
    class MultiPolygon:
        def __init__(self, polys):
            self.geoms = [p if isinstance(p, Polygon) else Polygon(p[0], p[1] if len(p) > 1 else ()) for p in polys]
        @property
        def envelope(self): return Envelope(self)
    class Envelope:
        def __init__(self, g): self.g = g
        def buffer(self, r): return Frame(self.g, r)
    class Frame:
        def __init__(self, g, r): self.g, self.r, self.exterior = g, r, ('outline', self)
    class Free:
        """what a frame leaves free around a geometry"""
        def __init__(self, n, f): self.n, self.frame = n, f
    I = z3.IntSort()
    touches, repf = z3.Function('touches', I, z3.BoolSort()), z3.Function('rep', I, I, z3.RealSort())
    def lst(x): return list(x.items) if isinstance(x, Objs) else [x] if isinstance(x, (Ring, Polygon)) else list(x)
    def exterior(x):
        if isinstance(x, Polygon): return x.exterior
        return Objs(p.exterior for p in lst(x))
    def nint(x): return nps.array([len(p.interiors) for p in lst(x)]) if not isinstance(x, Polygon) else len(x.interiors)
    def interior(x, i):
        i = int(i)
        if isinstance(x, Polygon): return x.interiors[i] if i < len(x.interiors) else None
        return Objs(p.interiors[i] if i < len(p.interiors) else None for p in lst(x))
    def coords(x):
        if isinstance(x, Pts):
            sel = A.SELS.get(domkey(x.n)) if not isinstance(x.n, int) else None
            w.sel = sel() if sel else None
            return Arr((x.n, 2), lambda ix: x.f(ix), 'f')
        if isinstance(x, Ring): return x.coords.copy()
        if isinstance(x, Arr) and same_dim(x.shape_[0], 0): return nps.zeros((0, 2))
        xs = [y for y in lst(x) if y is not None]
        if not xs: return nps.zeros((0, 2))
        if all(isinstance(y, Ring) for y in xs):
            w.order = xs
            return nps.concatenate([y.coords for y in xs])
        raise Unsupported('coordinates of %s' % type(xs[0]).__name__)
    def npoints(x):
        if isinstance(x, Ring): return x.n
        return nps.array([y.n for y in lst(x)])
    def surface(x):
        if isinstance(x, Arr) and isinstance(x.shape_[0], int) and x.shape_[0] == 0: return Pts(0, lambda ix: num(0.0))
        if isinstance(x, Arr):
            f = x.snap()
            return Pts(x.shape_[0], lambda ix: Num(repf(intt(lift(f((ix[0],))).fin), intt(iterm(ix[1]))), kind='f'))
        xs = lst(x)
        # a hole's polygon: the marker of the ring
        for p in xs:
            if not isinstance(p, Polygon) or p.interiors: raise Unsupported('representative point')
        return Pts(len(xs), lambda ix: A.pick([lift(n_ite(intt(iterm(ix[1])) == 0, marker(p.exterior, 0), marker(p.exterior, 1))) for p in xs], ix[0]))
    def marker(ring, c): return Num(z3.Real('marker%d.%d' % (w.rings.index(ring), c)), kind='f')
    w.marker = marker
    def difference(a, b):
        if not (isinstance(a, Frame) and b is w.geom): raise Unsupported('difference')
        v.ensure('the frame is larger than the polygon', and_(a.g is w.geom, num(a.r) > 0))
        return Free(v.dim('regions', 1), a)
    def get_parts(x):
        if isinstance(x, MultiPolygon): return Objs(x.geoms)
        if not isinstance(x, Free): raise Unsupported('get_parts')
        w.regions = x.n
        r = nps.arange(x.n)
        r.frame = x.frame
        return r
    def intersects(a, b):
        if isinstance(a, Arr) and getattr(a, 'frame', None) and isinstance(b, tuple) and b == ('outline', a.frame):
            f = a.snap()
            return Arr(a.shape_, lambda ix: B(touches(intt(lift(f(ix)).fin))), 'b')
        raise Unsupported('intersects')
    w.inner = lambda i: B(z3.Not(touches(intt(lift(i).fin))))
    w.rep = lambda i, c: Num(repf(intt(lift(i).fin), z3.IntVal(c)), kind='f')

    def triangulate(data, opts=''):
        w.data = data
        boundary(v, w)
        nv, nt = v.dim('nv', 3), v.dim('nt', 1)
        TV = v.arr('tv', (nv, 2))
        TT = v.arr('tt', (nt, 3), 'i', lambda ix, t: z3.And(t >= 0, t < intt(dterm(mkdim(nv)))))
        w.tv, w.tt, w.nt = TV.copy(), TT.copy(), nt
        f, g = TV.snap(), TT.snap()
        def area2(i):
            P = [[_n(f((iterm(lift(g((i, k))).fin), c))) for c in (0, 1)] for k in range(3)]
            return (P[1][0] - P[0][0]) * (P[2][1] - P[0][1]) - (P[2][0] - P[0][0]) * (P[1][1] - P[0][1])
        w.area2 = area2
        ctx().assume(t_bool(T(forall(nt, lambda i: ne(area2(iterm(i.fin) if not isinstance(i, PIx) else i), 0)))))
        if not sampling: raise Bounded()
        return {'vertices': TV, 'triangles': TT}
    def affine(p, m):
        m = list(m)
        v.ensure('affine map of the plane', len(m) == 6 and isinstance(p, Pt))
        return Pt(m[0] * p.x + m[1] * p.y + m[4], m[2] * p.x + m[3] * p.y + m[5])
    class NP:
        """numpy with arrays of geometries"""
        def __getattr__(self, n): return getattr(w.npm, n)
        def array(self, x, *a, **k):
            if x is None: return Objs([None])
            if isinstance(x, Objs): return Objs(x.items)
            if not isinstance(x, Arr):
                y = list(x)
                if all(isinstance(z, (Ring, Polygon)) or z is None for z in y): return Objs(y)
            return w.npm.array(x, *a, **k)
        asarray = array
        def concatenate(self, xs, axis=0, **k):
            xs = list(xs)
            if any(isinstance(x, Objs) or isinstance(x, list) and any(isinstance(y, Ring) for y in x) for x in xs):
                return Objs(y for x in xs if not (isinstance(x, Arr) and int(x.shape_[0]) == 0) for y in x)
            return w.npm.concatenate(xs, axis, **k)
    w.npm = nps.module()
    v.eng.stubs['numpy'] = NP()
    v.eng.stubs['shapely'] = types.SimpleNamespace(MultiPolygon=MultiPolygon, Polygon=Polygon, Point=Pt, LinearRing=Ring, get_exterior_ring=exterior,
        get_num_interior_rings=nint, get_interior_ring=interior, get_coordinates=coords, get_num_points=npoints, point_on_surface=surface,
        difference=difference, get_parts=get_parts, intersects=intersects)
    v.eng.stubs['shapely.affinity'] = types.SimpleNamespace(affine_transform=affine)
    v.eng.stubs['triangle'] = types.SimpleNamespace(triangulate=triangulate)
    m = v.eng.load('nonasymptotic/sampler.py')
    k = 0
    polys = []
    for h in parts:
        rs = [Ring(v, 'ring%d' % (k + j)) for j in range(h + 1)]
        k += h + 1
        p = Polygon(rs[0], rs[1:])
        polys.append(p)
        w.rings += rs
    w.holes = [r for p in polys for r in p.interiors]
    w.multi = multi
    w.geom = MultiPolygon(polys) if multi else polys[0]
    return m, w

def boundary(v, w):
    V, S, M = asarr(w.data['vertices']), asarr(w.data['segments']), asarr(w.data['holes'])
    ns = sum((num(r.n) - 1 for r in w.rings), num(0))
    v.ensure('as many segments as ring edges', and_(shape_is(S, (mkdim(ns), 2)), V.ndim == 2))
    nv = V.shape_[0]
    s = v.idx(S.shape_[0], 's')
    c = v.idx(2, 'c')
    v.ensure('segments join vertices', and_(S[s, c] >= 0, S[s, c] < num(nv)))
    def joins(s, r, k):
        p = lambda e: [V[S[s, e], c] for c in (0, 1)]
        q = lambda k: [r.coords[k, c] for c in (0, 1)]
        a, b = q(k), q(k + 1)
        return or_(*[and_(*[eq(x, y) for x, y in zip(p(0) + p(1), t)]) for t in (a + b, b + a)])
    order = [r for r in w.order if r in w.rings] + [r for r in w.rings if r not in w.order]
    off = num(0)
    for r in order:
        # (the order of the segments is a guess at the witness only)
        n = num(r.n) - 1
        k, t = v.idx(mkdim(n), 'k'), off + v.idx(mkdim(n), 's')
        v.ensure('every edge of a ring is handed to the triangulator, the closing one included', exists(S.shape_[0], lambda s: joins(s, r, k)), hints=[hint(S.shape_[0], x) for x in (off + k, off + k + 1, off, off + n - 1)])
        v.ensure('every segment is an edge of a ring', exists(mkdim(n), lambda k: joins(t, r, k)), hints=[hint(mkdim(n), x) for x in (t - off, t - off - 1, inum(0), n - 1)])
        off = off + n
    a, b = v.idx(nv, 'a'), v.idx(nv, 'b')
    v.ensure('no vertex is handed to the triangulator twice', imp(and_(*[eq(V[a, c], V[b, c]) for c in (0, 1)]), eq(a, b)))
    # markers
    nm = M.shape_[0]
    v.ensure('markers are points', and_(M.ndim == 2, eq(num(M.shape_[1]), 2)))
    at = lambda m, f: and_(*[eq(M[m, c], f(c)) for c in (0, 1)])
    if w.multi:
        g = v.idx(w.regions, 'region')
        hs = [hint(nm, num(nm) - w.sel.n + e + Num(w.sel.invix((iterm(g.fin),)), kind='i')) for e in (0, -1)] if w.sel else []
        v.ensure('every enclosed region has a marker', imp(w.inner(g), exists(nm, lambda m: at(m, lambda c: w.rep(g, c)))), hints=hs)
        hole = lambda m: exists(w.regions, lambda g: and_(w.inner(g), at(m, lambda c: w.rep(g, c))))
    else:
        for i, r in enumerate(w.holes):
            v.ensure('every hole has a marker', or_(*[at(inum(m), lambda c: w.marker(r, c)) for m in range(int(nm))]))
        hole = lambda m: or_(*[at(m, lambda c: w.marker(r, c)) for r in w.holes])
    m = v.idx(nm, 'm')
    k, a = v.idx(nv, 'k'), None
    below = or_(*[forall(nv, lambda k: M[m, c] < V[k, c]) for c in (0, 1)] + [forall(nv, lambda k: M[m, c] > V[k, c]) for c in (0, 1)])
    v.ensure('every other marker lies outside the polygon', or_(hole(m), below))

def draw(v, parts, multi, sampling=True):
    m, w = setup(v, parts, multi, sampling)
    def path():
        w.data = None
        rng = nps.RNG(1)
        try:
            p = m.random_point_in_mpolygon(w.geom, rng)
        except Bounded:
            return
        v.ensure('the polygon is triangulated', w.data is not None)
        if w.data is None: return
        v.ensure('a point is returned', isinstance(p, Pt))
        if not isinstance(p, Pt): return
        u = [e for e in rng.log if e[0] == 'unit']
        ch = [e for e in rng.log if e[0] == 'choice']
        if len(ch) != 1 or not u: raise Unsupported('the draw is not one triangle and two coordinates')
        _, n, pr, t = ch[0]
        v.ensure('one triangle of all is drawn', and_(eq(num(n), num(w.nt)), pr is not None))
        if pr is None: return
        area = lambda i: ab(w.area2(i)) / 2
        tot = A.vec_reduce('sum', [mkdim(w.nt)], lambda i: area(i))
        i = v.idx(w.nt, 'tri')
        v.ensure('each triangle is drawn with probability equal to its share of the total area', eq(lift(pr[i]) * tot, area(iterm(i.fin))))
        xs = [lift(x) for e in u for x in ([e[2].at(j) for j in range(e[2].shape_[0])] if e[2].ndim else [e[2].at()])]
        v.ensure('two uniform coordinates are drawn', len(xs) == 2)
        if len(xs) != 2: return
        x, y = xs
        P = [[w.tv[w.tt[t, k], c] for c in (0, 1)] for k in range(3)]
        big = x + y > 1
        def is_(i, j, k):
            a, b = ite(big, 1 - x, x), ite(big, 1 - y, y)
            O, U, W = P[i], P[j], P[k]
            return and_(*[eq(q, O[c] + a * (U[c] - O[c]) + b * (W[c] - O[c])) for c, q in ((0, p.x), (1, p.y))])
        import itertools
        v.ensure('the point is the uniform one of the triangle: the unit square folded onto it', or_(*[is_(*o) for o in itertools.permutations(range(3))]))
        a, b = ite(big, 1 - x, x), ite(big, 1 - y, y)
        v.ensure('folded coordinates are those of a triangle', and_(a >= 0, b >= 0, a + b <= 1))
    v.explore(path)

CASES = [((0,), False), ((1,), False), ((2,), False), ((3,), False), ((0,), True), ((0, 0), True), ((1, 0), True), ((0, 2), True), ((1, 1), True), ((0, 1, 0), True),
         ((4,), False), ((5,), False), ((0, 0, 0), True), ((2, 1), True), ((1, 0, 2), True), ((0, 3, 0), True), ((1, 1, 1), True)]
def tasks():
    q = 'sampler.random_point_in_mpolygon'
    return [(q + '[triangle and point]', lambda v: draw(v, (0,), False))] + [
        ('%s[boundary of a %s: holes %s]' % (q, 'multipolygon' if mu else 'polygon', ', '.join(map(str, ps))), lambda v, ps=ps, mu=mu: draw(v, ps, mu, False)) for ps, mu in CASES]
