import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
import math
from nonasymptotic import bound
def V(d): return math.exp(d / 2 * math.log(math.pi) - math.lgamma(d / 2 + 1))

def make(spec):
    k = spec['kind']
    if k == 'step':           # accepted below x
        return lambda r: -50.0 + 1e-3 * r if r < spec['x'] else 50.0 + r
    if k == 'wave':
        return lambda r: spec['a'] * math.sin(spec['w'] * r) + spec['b'] + spec['s'] * r
    if k == 'flat':
        return lambda r: spec['b']
    if k == 'fall':
        return lambda r: spec['b'] - r

def gen(rng, i):
    lb = rng.choice([0.0, 1.0, -3.0, rng.uniform(0, 5)]); ub = lb + rng.choice([1e-3, 1.0, 10.0, rng.uniform(.01, 100)])
    tol = rng.choice([1e-6, 1e-3, .25, (ub - lb) * rng.choice([1e-4, .3, 1.0, 2.0])])
    k = rng.choice(['step', 'step', 'wave', 'flat', 'fall'])
    sp = dict(kind=k, x=rng.uniform(lb - .1 * (ub - lb), ub + .1 * (ub - lb)), a=rng.uniform(0, 5), w=rng.uniform(.1, 60), b=rng.uniform(-8, 2), s=rng.uniform(-2, 4))
    return dict(lb=lb, ub=ub, tol=tol, p=rng.choice([.5, .9, .99]), spec=sp, deft=rng.random() < .2)
@case(gen, timeout=6)
def search(lb, ub, tol, p, spec, deft):
    G = make(spec)
    seen = {}
    def g(r):
        seen[r] = G(r); return seen[r]
    if deft:
        tol = 1e-6
        r = bound.halving_radius_search_over_log_prob_bound(g, lb, ub, p)
    else:
        r = bound.halving_radius_search_over_log_prob_bound(g, lb, ub, p, tol=tol)
    lim = math.log(1 - p)
    expect(lb <= r <= ub, 'radius %s outside [%s, %s]', r, lb, ub)
    e = 1e-12 * (1 + abs(r))
    good = lambda x: G(x) <= lim and G(x - tol / 2) < G(x)
    expect(r == lb or (G(r) <= lim + e), 'radius %s has failure bound %s, requested %s', r, G(r), lim)
    expect(r == lb or good(r) or abs(G(r) - lim) < e or abs(G(r - tol / 2) - G(r)) < 1e-12, 'radius %s does not satisfy both conditions', r)
    w = [x for x in list(seen) + [ub] if r < x <= r + tol * (1 + 1e-9) + e and (x == ub or not good(x))]
    expect(w or ub - r <= tol, 'no rejected radius within %s above %s', tol, r)

def gen_c(rng, i):
    m = rng.choice([10, 100, 1000, rng.randrange(10, 10 ** 6)])
    k = rng.randrange(5, max(6, min(m - 1, 5 + int(m * rng.random() ** 2))))
    return dict(m=m, k=k, dim=rng.choice([1, 2, 3, 6, 10]), vol=rng.choice([1.0, .2, rng.uniform(.05, 40)]), fp=rng.choice([.5, .1, .01, rng.uniform(.001, .99)]))
@case(gen_c)
def closed_form(m, k, dim, vol, fp):
    s = math.sqrt(2 * k * math.log(m / fp))
    if s >= k: return
    r = float(bound.compute_eff_conn_rad_bound(m, k, dim, vol, fp))
    p = V(dim) * r ** dim / vol
    mu = (m - 1) * p
    expect(abs(mu - (k - s)) <= 1e-7 * (1 + k), 'expected number of samples within radius %s is %s, should be %s', r, mu, k - s)
    mu = (m - 1) * min(p, 1)
    b = math.log(m) - mu + k * (1 + math.log(mu) - math.log(k))
    expect(b <= math.log(fp) + 1e-6 * (1 + abs(k) * 1e-3), 'Chernoff bound %s at radius %s exceeds %s', b, r, math.log(fp))

if __name__ == '__main__':
    main()
