import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
from fractions import Fraction as F
import numpy as np
from nonasymptotic.envs import NarrowPassage

H = F(1, 2)
def reference(s, g, c):
    """-> (stays in closed free space, touches a wall), exact"""
    s, g, c = [F(x) for x in s], [F(x) for x in g], F(c)
    d0 = g[0] - s[0]
    if d0 == 0:
        iv = (F(0), F(1)) if -H <= s[0] <= H else None
        inner = iv is not None and -H < s[0] < H
    else:
        ta, tb = sorted(((-H - s[0]) / d0, (H - s[0]) / d0))
        ta, tb = max(ta, F(0)), min(tb, F(1))
        iv = (ta, tb) if ta <= tb else None
        inner = iv is not None and ta < tb
    if iv is None:
        return True, False
    m = max(abs(s[i] + t * (g[i] - s[i])) for t in iv for i in range(1, len(s)))
    stays = not inner or m <= c
    if inner is False and d0 != 0:
        stays = True
    return stays, m >= c

def gen(rng, i):
    dim = rng.choice([2, 2, 3, 4, 6])
    c = rng.choice([1, 2, 8, 20, 31]) / 64
    n = rng.choice([1, 2, 3, 5, 7])
    q = lambda lo, hi: rng.randint(int(lo * 64), int(hi * 64)) / 64
    def pt():
        k = rng.random()
        if k < .35: return [q(-1.5, -.5)] + [q(-.5, .5) if rng.random() < .6 else q(-c, c) for _ in range(dim - 1)]
        if k < .7: return [q(.5, 1.5)] + [q(-.5, .5) if rng.random() < .6 else q(-c, c) for _ in range(dim - 1)]
        return [q(-.5, .5)] + [rng.choice([c, -c]) if rng.random() < .15 else q(-c, c) for _ in range(dim - 1)]
    def pair():
        a = pt(); b = pt()
        if rng.random() < .4:      # bad in one coordinate only
            k = rng.randrange(1, dim)
            for i in range(1, dim):
                if i != k:
                    a[i] = q(-c / 2, c / 2); b[i] = q(-c / 2, c / 2)
        if rng.random() < .2:
            k = rng.randrange(1, dim)
            b = [a[0], *b[1:]] if rng.random() < .5 else b
            if rng.random() < .5: b[k] = a[k] if abs(a[k]) <= c or abs(b[0]) >= .5 else b[k]
            if abs(b[0]) < .5: b = [b[0]] + [max(-c, min(c, x)) for x in b[1:]]
        return a, b
    ps = [pair() for _ in range(n)]
    return dict(dim=dim, c=c, a=[p[0] for p in ps], b=[p[1] for p in ps])

@case(gen)
def motions(dim, c, a, b):
    env = NarrowPassage(dim, c, 0)
    with np.errstate(all='ignore'):
        r = np.asarray(env.is_motion_valid(np.array(a), np.array(b)))
        one = [np.asarray(env.is_motion_valid(np.array([x]), np.array([y]))) for x, y in zip(a, b)]
    expect(r.shape == (len(a),), 'verdict shape %s for %d motions', r.shape, len(a))
    for x, y, v, o in zip(a, b, r, one):
        stays, touch = reference(x, y, c)
        expect(bool(v) == bool(o.reshape(-1)[0]), 'motion %s -> %s: batch verdict %s, single verdict %s', x, y, bool(v), bool(o.reshape(-1)[0]))
        if v: expect(stays, 'accepted motion %s -> %s leaves free space (clearance %s)', x, y, c)
        else: expect(touch, 'rejected motion %s -> %s touches no wall (clearance %s)', x, y, c)

if __name__ == '__main__':
    main()
