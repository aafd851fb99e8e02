import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
import math
from nonasymptotic import bound

def make(spec):
    """-> F: int -> float"""
    kind = spec['kind']
    if kind == 'table':         # arbitrary values, constant beyond the table
        t = spec['t']
        return lambda m: t[m] if m < len(t) else spec['last']
    if kind == 'step':          # meets the bound exactly from M on
        M = int(spec['M'])
        return lambda m: 1.0 if m < M else -1000.0
    if kind == 'hump':          # increases up to M, falls afterwards
        M = int(spec['M'])
        return lambda m: -50.0 + (m / M) * 60 if m <= M else 10.0 - 100.0 * ((m - M) / M)
    return lambda m: 5.0

def check(F, p, r):
    lim = math.log2(1 - p)
    good = lambda m: F(m) <= lim and F(m + 1) <= F(m)
    expect(int(r) == r and r >= 1, 'answer %r is not a count', r)
    r = int(r)
    expect(good(r), 'answer %d: bound there %s (limit %s), next %s', r, F(r), lim, F(r + 1))
    expect(r <= 2 or not good(r - 1), 'answer %d is not minimal: %d satisfies both conditions', r, r - 1)

def gen(rng, i):
    k = rng.random()
    p = rng.choice([.5, .9, .99, .25])
    if k < .45:
        n = rng.choice([3, 8, 20, 70])
        return dict(p=p, spec=dict(kind='table', t=[rng.choice([2.0, 0.5, -1.0, -2.0, -3.5, -9.0, -9.0]) for _ in range(n)], last=-20.0))
    if k < .85:
        e = rng.choice([3, 8, 20, 52, 53, 54, 60, 64, 100, 300, 900])
        return dict(p=p, spec=dict(kind='step', M=str(rng.randrange(2, 2 ** e + 3))))
    return dict(p=p, spec=dict(kind='hump', M=str(rng.randrange(2, 2 ** rng.choice([4, 10, 30])))))
@case(gen, timeout=6, fixed=[dict(p=.9, spec=dict(kind='step', M=str(2 ** 70 + 12345))), dict(p=.9, spec=dict(kind='step', M=str(10 ** 250 + 7)))])
def search(p, spec):
    F = make(spec)
    check(F, p, bound.doubling_sample_search_over_log2_prob_bound(F, p))

def gen_over(rng, i): return dict(p=rng.random() * .98 + .01) if i < 5 else None
@case(gen_over, .1, timeout=6)
def never_met(p):
    try:
        r = bound.doubling_sample_search_over_log2_prob_bound(lambda m: 5.0, p)
    except OverflowError:
        return
    fail('returned %r although no count meets the bound', r)

if __name__ == '__main__':
    main()
