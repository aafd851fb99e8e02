import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
import importlib.util
from fractions import Fraction as F
import numpy as np
def _load():
    sp = importlib.util.spec_from_file_location('turtle_sat', os.path.join(REPO, 'exps/tamp_environment/turtlebot_move/separating_axis.py'))
    m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m); return m
S = _load()

def hull(pts):
    pts = sorted(set(map(tuple, pts)))
    def half(ps):
        out = []
        for p in ps:
            while len(out) > 1 and (out[-1][0] - out[-2][0]) * (p[1] - out[-2][1]) - (out[-1][1] - out[-2][1]) * (p[0] - out[-2][0]) <= 0: out.pop()
            out.append(p)
        return out
    a, b = half(pts), half(pts[::-1])
    return a[:-1] + b[:-1]

def gap(a, b):
    """(separated by an edge normal, smallest relative |overlap|) in exact arithmetic"""
    best = None; sep = False
    for P in (a, b):
        for i in range(len(P)):
            e = (P[(i + 1) % len(P)][0] - P[i][0], P[(i + 1) % len(P)][1] - P[i][1])
            n = (e[1], -e[0])
            pa = [x * n[0] + y * n[1] for x, y in a]; pb = [x * n[0] + y * n[1] for x, y in b]
            o = min(max(pa), max(pb)) - max(min(pa), min(pb))
            sep = sep or o < 0
            m = abs(o) / (abs(n[0]) + abs(n[1]))
            best = m if best is None else min(best, m)
    return sep, best

def gen(rng, i):
    na, nb = rng.choice([(3, 3), (4, 4), (3, 4), (4, 3), (5, 3), (3, 6), (6, 6)])
    n = rng.choice([1, 2, 3, 5])
    def poly(k):
        while True:
            sx, sy = rng.choice([(10, 10), (30, 2), (3, 20)])
            h = hull([(rng.randint(-sx, sx), rng.randint(-sy, sy)) for _ in range(k * 5)])
            if len(h) >= k:
                ix = sorted(rng.sample(range(len(h)), k))
                h = [h[j] for j in ix]
                if rng.random() < .5: h = h[::-1]
                r = rng.randrange(k)
                return h[r:] + h[:r]
    def pair():
        a, b = poly(na), poly(nb)
        dx, dy = rng.choice([(0, 0), (rng.randint(-40, 40), rng.randint(-40, 40)), (rng.randint(-15, 15), rng.randint(-15, 15))])
        return a, [[x + dx, y + dy] for x, y in b]
    ps = [pair() for _ in range(n)]
    return dict(a=[p[0] for p in ps], b=[p[1] for p in ps])

@case(gen)
def polygons(a, b):
    A, B = np.array(a, float), np.array(b, float)
    r = np.asarray(S.vec_separating_axis_theorem(A, B))
    expect(r.shape == (len(a),), 'verdict shape %s for %d pairs', r.shape, len(a))
    for x, y, v in zip(a, b, r):
        one = bool(S.separating_axis_theorem(np.array(x, float), np.array(y, float)))
        sep, margin = gap([tuple(map(F, p)) for p in x], [tuple(map(F, p)) for p in y])
        if margin < F(1, 10 ** 6): continue          # touching: rounding decides
        expect(one == (not sep), 'polygons %s and %s: single-pair verdict %s, exact: %s', x, y, one, 'apart' if sep else 'common point')
        expect(bool(v) == one, 'polygons %s and %s: batch verdict %s, single-pair verdict %s', x, y, bool(v), one)

if __name__ == '__main__':
    main()
