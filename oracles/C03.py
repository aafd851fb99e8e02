import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
from fractions import Fraction as F
import numpy as np
from nonasymptotic.util import detect_intersect

def orient(a, b, c):
    v = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    return (v > 0) - (v < 0)
def onseg(a, b, c):
    return min(a[0], b[0]) <= c[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= c[1] <= max(a[1], b[1])
def inter(a, b, c, d):
    """exact closed segment intersection, orientation predicates"""
    o1, o2, o3, o4 = orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)
    if o1 != o2 and o3 != o4 and a != b and c != d:
        return True
    return (o1 == 0 and onseg(a, b, c)) or (o2 == 0 and onseg(a, b, d)) or (o3 == 0 and onseg(c, d, a)) or (o4 == 0 and onseg(c, d, b))

def gen(rng, i):
    # small integer coordinates (times a power of two): all arithmetic of the code is exact except one final division,
    # whose comparison with 0 and 1 is exact too
    m = rng.choice([1, 2, 3, 6, 12])
    sc = rng.choice([1.0, 0.25, 64.0])
    n = rng.choice([1, 1, 2, 3, 4, 6])
    P = lambda: [rng.randint(-m, m) * sc, rng.randint(-m, m) * sc]
    def seg():
        a = P(); b = P()
        while b == a: b = P()
        return a, b
    def pair():
        a, b = seg()
        k = rng.random()
        if k < .35:
            c, d = seg()
        elif k < .7:      # collinear / parallel
            t, u = rng.sample([-2, -1, 0, 1, 2, 3], 2)
            off = [0, 0] if rng.random() < .6 else P()
            e = [b[0] - a[0], b[1] - a[1]]
            c, d = [[a[0] + q * e[0] + off[0], a[1] + q * e[1] + off[1]] for q in (t, u)]
        else:             # touching
            c, d = seg()
            src = rng.choice([a, b])
            c = list(src)
            while d == c: d = P()
        if rng.random() < .5: c, d = d, c
        if rng.random() < .3: a, b, c, d = c, d, a, b
        return a, b, c, d
    ps = [pair() for _ in range(n)]
    form = rng.choice(['bb', 'bb', 'b1', '1b', '11'])
    return dict(a=[p[0] for p in ps], b=[p[1] for p in ps], c=[p[2] for p in ps], d=[p[3] for p in ps], form=form)

@case(gen)
def pairs(a, b, c, d, form):
    n = len(a)
    A, B, C, D = [np.array(x, float) for x in (a, b, c, d)]
    f1, f2 = form[0] == 'b', form[1] == 'b'
    if not f1: A, B = A[0], B[0]
    if not f2: C, D = C[0], D[0]
    saved = [x.copy() for x in (A, B, C, D)]
    with np.errstate(all='ignore'):
        r = np.asarray(detect_intersect(A, B, C, D))
    size = n if (f1 or f2) else 1
    expect(r.shape == (size,), 'verdict shape %s for %d pairs (%s)', r.shape, size, form)
    expect(all((x == y).all() for x, y in zip(saved, (A, B, C, D))), 'the arguments were modified')
    for j in range(size):
        q = [tuple(map(F, (x[j] if x.ndim == 2 else x))) for x in (A, B, C, D)]
        ref = inter(*q)
        expect(bool(r[j]) == ref, 'segments %s: reported %s, exact %s', [tuple(map(float, x)) for x in q], bool(r[j]), ref)

def gen_deg(rng, i):
    P = lambda: [float(rng.randint(-4, 4)), float(rng.randint(-4, 4))]
    a, b = P(), P()
    k = rng.choice([0, .5, 1])
    p = [a[0] + k * (b[0] - a[0]), a[1] + k * (b[1] - a[1])]
    return dict(a=a, b=b, p=p)
@case(gen_deg, .3)
def point_on_segment(a, b, p):
    a, b, p = map(np.array, (a, b, p))
    with np.errstate(all='ignore'):
        expect(bool(detect_intersect(a, b, p, p)[0]), 'point %s of segment %s-%s not reported (segment first)', p, a, b)
        expect(bool(detect_intersect(p, p, a, b)[0]), 'point %s of segment %s-%s not reported (point first)', p, a, b)

if __name__ == '__main__':
    main()
