import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
import numpy as np
from nonasymptotic.envs import StraightLine

def grid(rng, lo, hi):
    """values around and at the two bounds"""
    r = rng.random()
    if r < .2: return lo
    if r < .4: return hi
    if r < .5: return lo - rng.choice([1e-9, .01, 1])
    if r < .6: return hi + rng.choice([1e-9, .01, 1])
    return lo + rng.random() * (hi - lo)

def gen(rng, i):
    dim = rng.choice([2, 2, 3, 4, 7])
    delta = rng.choice([0.0, 0.25, rng.randint(0, 32) / 16, 2.0])   # dyadic: bounds are exact in floating point
    length = rng.choice([1.0, 0.5, 3.0, rng.randint(1, 80) / 16])
    n = rng.choice([1, 2, dim, 5])
    def pt(clean):
        f = (lambda lo, hi: lo + rng.random() * (hi - lo)) if clean else (lambda lo, hi: grid(rng, lo, hi))
        return [f(-delta, length + delta)] + [f(-delta, delta) for _ in range(dim - 1)]
    return dict(dim=dim, delta=delta, length=length, start=[pt(rng.random() < .6) for _ in range(n)], goal=[pt(rng.random() < .6) for _ in range(n)])

@case(gen)
def motions(dim, delta, length, start, goal):
    """segment inside the closed box iff both end points are"""
    env = StraightLine(dim, delta, length)
    s, g = np.array(start, float), np.array(goal, float)
    lo = np.array([-delta] * dim)
    hi = np.array([length + delta] + [delta] * (dim - 1))
    r = env.is_motion_valid(s, g)
    expect(np.shape(r) == (len(s),), 'batch verdict has shape %s for %d motions', np.shape(r), len(s))
    for j in range(len(s)):
        ok = all(lo[k] <= x[j, k] <= hi[k] for x in (s, g) for k in range(dim))
        expect(bool(r[j]) == ok, 'batch: motion %s -> %s judged %s, stays in the box: %s', s[j], g[j], bool(r[j]), ok)
        one = env.is_motion_valid(s[j], g[j])
        expect(bool(one) == ok, 'single: motion %s -> %s judged %s, stays in the box: %s', s[j], g[j], bool(one), ok)

if __name__ == '__main__':
    main()
