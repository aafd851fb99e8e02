import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
import numpy as np
from nonasymptotic.envs import StraightLine

def base(rng):
    return dict(dim=rng.choice([2, 3, 4, 6, 9]), delta=rng.choice([0.0, 0.1, 0.5, rng.random(), 1.5]), length=rng.choice([1.0, 0.3, 4.0, rng.random() * 3 + .05]))

def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))

def gen_curve(rng, i):
    d = base(rng); d['t'] = rng.choice([0.0, 1.0, -0.5, 1.7, 0.5, rng.random(), rng.random() * 3 - 1]); return d
@case(gen_curve)
def curve(dim, delta, length, t):
    env = StraightLine(dim, delta, length)
    c = np.asarray(env.arclength_to_curve_point(t))
    ref = np.zeros(dim); ref[0] = min(max(t, 0), 1) * length
    expect(c.shape == (dim,), 'curve point has shape %s', c.shape)
    expect(np.allclose(c, ref, rtol=1e-12, atol=1e-12), 'curve(%s) = %s, expected %s', t, c, ref)

def gen_dist(rng, i):
    d = base(rng)
    d['pts'] = [[rng.uniform(-2, 2) * (d['length'] if k == 0 else 1) + (d['length'] / 2 if k == 0 else 0) for k in range(d['dim'])] for _ in range(rng.choice([1, 2, 3, d['dim']]))]
    return d
@case(gen_dist)
def distance(dim, delta, length, pts):
    env = StraightLine(dim, delta, length)
    p = np.array(pts)
    D = np.asarray(env.distance_to_path(p))
    expect(D.shape == (len(p),), 'distances have shape %s for %d points', D.shape, len(p))
    for x, d in zip(p, D):
        ref = np.sqrt((x[0] - min(max(x[0], 0), length)) ** 2 + sum(v * v for v in x[1:]))
        expect(close(d, ref), 'distance of %s to the curve is %s, reported %s', x, ref, d)

def gen_s(rng, i):
    d = base(rng); d['seed'] = rng.randrange(10 ** 6); d['draws'] = 400; return d
@case(gen_s)
def sampling(dim, delta, length, seed, draws):
    env = StraightLine(dim, delta, length, seed=seed)
    x = np.array([env.sample_from_env() for _ in range(draws)])
    expect(x.shape == (draws, dim), 'samples have shape %s', x.shape)
    lo = np.array([-delta] * dim); hi = np.array([length + delta] + [delta] * (dim - 1))
    expect((x >= lo - 1e-12).all() and (x <= hi + 1e-12).all(), 'sample outside the box: min %s max %s', x.min(0), x.max(0))
    if delta > 0:
        u = (x - lo) / (hi - lo)
        # Kolmogorov-Smirnov distance per coordinate (false alarm probability < 1e-9) and pairwise correlation
        g = np.arange(1, draws + 1) / draws
        for k in range(dim):
            s = np.sort(u[:, k]); ks = np.max(np.abs(s - g)) * np.sqrt(draws)
            expect(ks < 3.6, 'coordinate %d of the samples is not uniform (KS %.2f)', k, ks)
        if dim > 1:
            c = np.corrcoef(u.T)[np.triu_indices(dim, 1)]
            expect(np.max(np.abs(c)) * np.sqrt(draws) < 8, 'coordinates of the samples are correlated: %s', np.max(np.abs(c)))
            expect(len(np.unique(u.round(12), axis=0)) == draws, 'repeated samples')

def gen_v(rng, i): return base(rng)
@case(gen_v)
def volume(dim, delta, length):
    v = float(StraightLine(dim, delta, length).volume)
    ref = (length + 2 * delta) * (2 * delta) ** (dim - 1)
    expect(close(v, ref), 'volume %s, expected %s', v, ref)

if __name__ == '__main__':
    main()
