"""points drawn from polygons built from integer boxes and L-shapes, with holes and islands; the data handed to the
triangulator; proportions on fixed seeds with very wide margins"""
import os, sys, math
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
import numpy as np
import triangle as tr_real
from shapely import Polygon, MultiPolygon, Point
import nonasymptotic.sampler as S

GIVEN = []
class Tr:
    def __getattr__(self, n): return getattr(tr_real, n)
    def triangulate(self, data, opts=''):
        out = tr_real.triangulate(data, opts)
        GIVEN.append((data, opts, out))
        return out
for k, x in list(vars(S).items()):
    if x is tr_real: setattr(S, k, Tr())

def box(x, y, w, h, cw=False):
    r = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]
    return r[::-1] if cw else r
def ell(x, y, w, h): return [(x, y), (x + w, y), (x + w, y + h / 2), (x + w / 2, y + h / 2), (x + w / 2, y + h), (x, y + h)]

def component(rng, x, y, depth):
    """an outline of size 16 at (x, y) with holes; islands inside the holes"""
    kind = rng.choice(['box', 'box', 'ell', 'tri', 'dia'])
    if depth: kind = 'box'
    if kind == 'ell': return [dict(ext=ell(x, y, 16, 16), holes=[])]
    if kind == 'tri': return [dict(ext=[(x, y), (x + 16, y), (x + rng.choice([0, 4, 16]), y + 8)], holes=[])]
    if kind == 'dia': return [dict(ext=[(x + 8, y), (x + 16, y + 8), (x + 8, y + 16), (x, y + 8)], holes=[box(x + 6, y + 6, 4, 4)] if rng.random() < .5 else [])]
    if depth == 0 and rng.random() < .15:        # an island touching its hole
        return [dict(ext=box(x, y, 16, 16), holes=[box(x + 2, y + 2, 12, 12)]), dict(ext=rng.choice([[(x + 8, y + 2), (x + 14, y + 8), (x + 8, y + 14), (x + 2, y + 8)], [(x + 2, y + 8), (x + 8, y + 6), (x + 14, y + 8), (x + 8, y + 10)], [(x + 2, y + 8), (x + 8, y + 6), (x + 8, y + 10)]]), holes=[])]
    if depth == 0 and rng.random() < .1:         # parts that touch around a gap
        return [dict(ext=box(x + 4 * a, y + 4 * b, 4, 4, rng.random() < .5), holes=[]) for a, b in rng.choice([((0, 1), (1, 2), (2, 1), (1, 0)), ((0, 0), (1, 1)), ((0, 1), (1, 2), (2, 1), (1, 0), (3, 2), (2, 3))])]
    out = [dict(ext=box(x, y, 16, 16, rng.random() < .5), holes=[])]
    nh = rng.choice([0, 1, 1, 2, 3])
    spots = [(x + 1, y + 1), (x + 9, y + 1), (x + 1, y + 9), (x + 9, y + 9)]
    rng.shuffle(spots)
    for sx, sy in spots[:nh]:
        w = rng.choice([2, 4, 6])
        out[0]['holes'].append(box(sx, sy, w, w, rng.random() < .5))
        if w == 6 and rng.random() < .6:
            out.append(dict(ext=box(sx + 1, sy + 1, 4, 4), holes=[box(sx + 2, sy + 2, 2, 2)] if rng.random() < .4 else []))
    return out
def gen(rng, i):
    n = rng.choice([1, 1, 2, 3])
    sc = rng.choice([1, 1, .125])
    ox, oy = rng.choice([(0, 0), (0, 0), (-8, -8), (-104, -104), (500, -300)])
    comps = []
    for j in range(n): comps += component(rng, 20 * j, rng.choice([0, 5, 30]), 0)
    for c in comps:
        c['ext'] = [((a * sc + ox), (b * sc + oy)) for a, b in c['ext']]
        c['holes'] = [[((a * sc + ox), (b * sc + oy)) for a, b in h] for h in c['holes']]
    rng.shuffle(comps)
    return dict(comps=comps, seeds=[rng.randint(0, 10 ** 6) for _ in range(4)])

def geometry(comps, multi=None):
    ps = [Polygon(c['ext'], c['holes']) for c in comps]
    return ps[0] if len(ps) == 1 and not multi else MultiPolygon(ps)

BIG = [dict(ext=box(-128, -128, 64, 64), holes=[])]
@case(gen, weight=3, fixed=[dict(comps=BIG, seeds=[1]), dict(comps=BIG + [dict(ext=box(0, 0, 1, 1), holes=[])], seeds=[1, 2, 3])])
def member(comps, seeds):
    g = geometry(comps)
    tol = 1e-9 * (1 + max(abs(a) for a in g.bounds))
    fat = g.buffer(tol)
    for s in seeds:
        del GIVEN[:]
        p = S.random_point_in_mpolygon(g, rng=np.random.default_rng(s))
        expect(isinstance(p, Point) and fat.covers(p), 'drew %s outside the polygon', p)
        expect(len(GIVEN) == 1, 'triangulated %d times', len(GIVEN))
        data, opts, out = GIVEN[0]
        rings = [[tuple(map(float, x)) for x in r] for c in comps for r in [c['ext']] + c['holes']]
        V = [tuple(x) for x in np.asarray(data['vertices'], dtype=float)]
        expect(set(V) == {x for r in rings for x in r}, 'vertices handed to the triangulator are not the ring vertices')
        want = sorted(tuple(sorted((r[k], r[(k + 1) % len(r)]))) for r in rings for k in range(len(r)))
        got = sorted(tuple(sorted((V[int(a)], V[int(b)]))) for a, b in np.asarray(data['segments']))
        expect(got == want, 'segments handed to the triangulator are not the ring edges')
        marks = [Point(m) for m in np.asarray(data.get('holes', []), dtype=float).reshape(-1, 2)]
        expect(not any(g.intersects(m) for m in marks), 'a hole marker lies inside the polygon')
        for c in comps:
            for h in c['holes']:
                air = Polygon(h)
                for o in comps: 
                    if Polygon(h).covers(Polygon(o['ext'])): air = air.difference(Polygon(o['ext']))
                for part in getattr(air, 'geoms', [air]):
                    expect(sum(part.contains(m) for m in marks) == 1, 'a hole has %d markers', sum(part.contains(m) for m in marks))
        T = np.asarray(out['vertices'])[np.asarray(out['triangles'])]
        A = abs(np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0])) / 2
        expect(abs(A.sum() - g.area) <= 1e-9 * g.area, 'the triangles cover area %r of %r', A.sum(), g.area)

# proportions on fixed seeds: thresholds of more than seven standard deviations
def once(rng, i): return dict(which=['triangle', 'boxes', 'holes'][i % 3], seed=i // 3) if i < 9 else None
@case(once, weight=.5, timeout=60)
def proportions(which, seed):
    rng = np.random.default_rng(1000 + seed)
    n = 1500
    if which == 'triangle':
        a, b, c = map(np.array, ((1., 2.), (9., 3.), (4., 11.)))
        g = Polygon([a, b, c])
        M = np.linalg.inv(np.array([b - a, c - a]).T)
        cells = [0] * 4
        for _ in range(n):
            u, w = M @ (np.array(S.random_point_in_mpolygon(g, rng=rng).coords[0]) - a)
            t = 1 - u - w
            cells[0 if u > .5 else 1 if w > .5 else 2 if t > .5 else 3] += 1
        want = [.25] * 4
    else:
        if which == 'boxes':
            ps = [Polygon(box(0, 0, 2, 2)), Polygon(box(10, 0, 4, 4)), Polygon(box(20, 0, 1, 12))]
        else:
            ps = [Polygon(box(0, 0, 8, 8), [box(2, 2, 4, 4)]), Polygon(box(3, 3, 2, 2)), Polygon([(20, 0), (28, 0), (20, 3)])]
        g = MultiPolygon(ps)
        cells = [0] * len(ps)
        for _ in range(n):
            p = S.random_point_in_mpolygon(g, rng=rng)
            d = [q.distance(p) for q in ps]
            expect(min(d) < 1e-9, 'drew %s outside the polygon', p)
            cells[d.index(min(d))] += 1
        want = [q.area / g.area for q in ps]
    for k, w in zip(cells, want):
        expect(abs(k - n * w) < 7.5 * math.sqrt(n * w * (1 - w)), '%s: counts %s for shares %s', which, cells, want)
if __name__ == '__main__': main()
