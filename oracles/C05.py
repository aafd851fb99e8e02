import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
import numpy as np
from nonasymptotic.envs import NarrowPassage

def close(a, b, tol=1e-9): return abs(a - b) <= tol * (1 + abs(a) + abs(b))
def base(rng):
    return dict(dim=rng.choice([2, 3, 4, 5, 8]), c=rng.choice([.05, .25, .49, rng.uniform(.02, .49)]))

def gen_curve(rng, i):
    d = base(rng); d['t'] = rng.choice([0.0, 1.0, -0.5, 1.7, 0.5, rng.random(), rng.random() * 3 - 1]); return d
@case(gen_curve)
def curve(dim, c, t):
    p = np.asarray(NarrowPassage(dim, c, 0).arclength_to_curve_point(t))
    ref = np.zeros(dim); ref[0] = min(max(t, 0), 1) - .5
    expect(p.shape == (dim,), 'curve point has shape %s in dimension %d', p.shape, dim)
    expect(np.allclose(p, ref, rtol=1e-12, atol=1e-12), 'curve(%s) = %s, expected %s', t, p, ref)

def gen_dist(rng, i):
    d = base(rng)
    d['pts'] = [[rng.uniform(-1.6, 1.6) if k == 0 else rng.uniform(-.6, .6) for k in range(d['dim'])] for _ in range(rng.choice([1, 2, 3, d['dim']]))]
    return d
@case(gen_dist)
def distance(dim, c, pts):
    p = np.array(pts)
    D = np.asarray(NarrowPassage(dim, c, 0).distance_to_path(p))
    expect(D.shape == (len(p),), 'distances have shape %s for %d points', D.shape, len(p))
    for x, d in zip(p, D):
        ref = np.sqrt((x[0] - min(max(x[0], -.5), .5)) ** 2 + sum(v * v for v in x[1:]))
        expect(close(d, ref), 'distance of %s to the curve is %s, reported %s', x, ref, d)

def gen_v(rng, i): return base(rng)
@case(gen_v)
def volume(dim, c):
    v = float(NarrowPassage(dim, c, 0).volume)
    expect(close(v, 2 + (2 * c) ** (dim - 1)), 'volume %s, expected %s', v, 2 + (2 * c) ** (dim - 1))

def gen_s(rng, i):
    d = base(rng)
    if rng.random() < .5: d['dim'] = 2
    d['seed'] = rng.randrange(10 ** 6); d['draws'] = 3000; return d
@case(gen_s, 2.0)
def sampling(dim, c, seed, draws):
    env = NarrowPassage(dim, c, seed)
    x = np.array([env.sample_from_env() for _ in range(draws)])
    expect(x.shape == (draws, dim), 'samples have shape %s', x.shape)
    left = x[:, 0] < -.5; right = x[:, 0] > .5; hall = ~left & ~right
    vol = 2 + (2 * c) ** (dim - 1)
    boxes = [(left, [-1.5] + [-.5] * (dim - 1), [-.5] + [.5] * (dim - 1), 1 / vol, 'left room'),
             (right, [.5] + [-.5] * (dim - 1), [1.5] + [.5] * (dim - 1), 1 / vol, 'right room'),
             (hall, [-.5] + [-c] * (dim - 1), [.5] + [c] * (dim - 1), 1 - 2 / vol, 'hallway')]
    for m, lo, hi, p, name in boxes:
        lo, hi = np.array(lo), np.array(hi)
        k = int(m.sum())
        y = x[m]
        expect((y >= lo - 1e-12).all() and (y <= hi + 1e-12).all(), 'sample outside the %s: %s', name, y[((y < lo - 1e-12) | (y > hi + 1e-12)).any(1)][:1])
        # binomial count (8 sigma plus slack for small means)
        expect(abs(k - draws * p) <= 8 * np.sqrt(draws * p * (1 - p)) + 10, '%d of %d samples in the %s, expected %.1f', k, draws, name, draws * p)
        if k > 30:
            u = (y - lo) / (hi - lo); g = np.arange(1, k + 1) / k
            for j in range(dim):
                ks = np.max(np.abs(np.sort(u[:, j]) - g)) * np.sqrt(k)
                expect(ks < 3.8, 'coordinate %d in the %s is not uniform (KS %.2f, %d points)', j, name, ks, k)

if __name__ == '__main__':
    main()
