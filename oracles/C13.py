import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
import math
import numpy as np
from nonasymptotic import bound

def V(d): return math.exp(d / 2 * math.log(math.pi) - math.lgamma(d / 2 + 1))
def hoeff(m, k, p): return math.log(m) - 2 * (m - 1) * max(k / (m - 1) - p, 0) ** 2
def cher(m, k, p):
    mu = (m - 1) * min(p, 1)
    return math.log(m) - mu + k * (1 + math.log(mu) - math.log(k))
def kl(m, k, p, union):
    p = min(p, 1.0); s = max(k / m, p)
    f = lambda a, b: 0.0 if a <= 1e-15 else a * math.log(a / b)
    return (math.log(m) if union else 0) - (m - 1) * (f(s, p) + f(1 - s, 1 - p) if p < 1 else 0.0)

def gen(rng, i):
    m = rng.choice([2, 3, 10, 50, 1000, rng.randrange(2, 10 ** 5)])
    dim = rng.choice([1, 2, 3, 5, 9]); vol = rng.choice([1.0, rng.uniform(.1, 20)])
    k = rng.randrange(1, max(2, min(m, 3 + int(m * rng.random()))))
    p = rng.choice([rng.uniform(1e-4, 1), rng.uniform(.2, 1.8) * k / m, rng.uniform(1, 3)])
    return dict(m=m, k=k, dim=dim, vol=vol, r=(p * vol / V(dim)) ** (1 / dim), r2=(p * rng.uniform(.3, 3) * vol / V(dim)) ** (1 / dim))

@case(gen)
def tails(m, k, dim, vol, r, r2):
    B = bound
    def cl(x, y, what, scale=1.0):
        expect(abs(x - y) <= 1e-8 * (1 + abs(y) + scale), '%s = %s, expected %s', what, x, y)
    p, q = (V(dim) * x ** dim / vol for x in (r, r2))
    h1 = float(B.compute_tail_knn_radius_log_prob_hoeffding(m, k, r, dim, vol)); h2 = float(B.compute_tail_knn_radius_log_prob_hoeffding(m, k, r2, dim, vol))
    v1 = float(B.compute_tail_knn_radius_log_prob_hoeffding_mean_variant(m, k, r, dim, vol))
    cl(h1, hoeff(m, k, p), 'Hoeffding bound', m * 1e-3)
    cl(v1, hoeff(m, k, p), 'Hoeffding bound (mean variant)', m * 1e-3)
    if r <= r2: expect(h1 <= h2 + 1e-9 * (1 + abs(h2)), 'Hoeffding bound decreases from radius %s (%s) to %s (%s)', r, h1, r2, h2)
    c = float(B.compute_tail_knn_radius_log_prob_chernoff_generic(m, k, r, dim, vol))
    cl(c, cher(m, k, p), 'Chernoff bound', m * 1e-3)
    a = float(B.compute_tail_knn_radius_log_prob_chernoff_kl(m, k, r, dim, vol)); b = float(B.compute_tail_knn_radius_log_prob_chernoff_kl(m, k, r, dim, vol, enable_union_bound_factor=False))
    cl(a, kl(m, k, p, True), 'Chernoff-KL bound', m * 1e-3)
    cl(b, kl(m, k, p, False), 'Chernoff-KL bound without union factor', m * 1e-3)
    for x, n in ((h1, 'Hoeffding'), (v1, 'Hoeffding variant'), (c, 'Chernoff'), (a, 'Chernoff-KL')):
        expect(x <= math.log(m) + 1e-8 * (1 + m * 1e-3), '%s bound %s exceeds log m = %s', n, x, math.log(m))

if __name__ == '__main__':
    main()
