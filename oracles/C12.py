import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
import math
from fractions import Fraction as F
from nonasymptotic import bound

def close(a, b, tol=1e-9): return abs(a - b) <= tol * (1 + abs(a) + abs(b))
def V(d): return math.exp(d / 2 * math.log(math.pi) - math.lgamma(d / 2 + 1))
def alpha(tol): return 1.0 if tol is None else tol / math.sqrt(1 + tol * tol)
def rho(c, tol, dim, vol): return V(dim) / vol * (alpha(tol) * c) ** dim
def log2sum(m, vc):
    s = sum(math.comb(2 * m, i) for i in range(vc + 1))
    return math.log2(s)
def failure(m, rho_, dim): return 1 + log2sum(m, dim + 1) - rho_ * m / 2

def gen(rng, i):
    return dict(c=rng.choice([.05, .1, .3, rng.uniform(.02, 1)]), p=rng.choice([.5, .9, .99, rng.uniform(.01, .999)]), vol=rng.choice([1.0, rng.uniform(.2, 30)]),
                dim=rng.choice([1, 2, 2, 3, 4, 5, 7]), tol=rng.choice([None, .1, 1.0, rng.uniform(.01, 5)]))
@case(gen, 2.0, timeout=25)
def numerical(c, p, vol, dim, tol):
    m, cr = bound.compute_numerical_bound(c, p, vol, dim, tol)
    r = rho(c, tol, dim, vol)
    m = int(m)
    a = alpha(tol)
    expect(close(cr, 2 * (a + math.sqrt(1 - a * a)) * c), 'connection radius %s, expected %s', cr, 2 * (a + math.sqrt(1 - a * a)) * c)
    if tol is not None:
        expect(close(bound.compute_connection_radius(c, tol), cr), 'stand-alone connection radius %s, bound returns %s', bound.compute_connection_radius(c, tol), cr)
    lim = math.log2(1 - p)
    slack = lambda x: 1e-9 * (1 + abs(x) + r * m)
    f = failure(m, r, dim)
    expect(f <= lim + slack(f), 'count %d has log2 failure bound %s, requested %s', m, f, lim)
    if m > 2:
        g = failure(m - 1, r, dim)
        expect(g > lim - slack(g) or f > g - slack(g), 'count %d is not minimal: %d already has %s <= %s', m, m - 1, g, lim)
    expect(close(bound.compute_rho(c, tol, dim, vol), r), 'rho %s, expected %s', bound.compute_rho(c, tol, dim, vol), r)

def gen_bad(rng, i):
    return dict(p=[0.0, 1.0, -0.1, 1.5, 2.0, -3.0][i]) if i < 6 else None
@case(gen_bad, .05)
def rejects(p):
    try:
        bound.compute_numerical_bound(.1, p, 1.0, 2, .5)
    except ArithmeticError:
        return
    fail('success probability %s accepted', p)

def gen_n(rng, i):
    return dict(dim=rng.choice([1, 2, 3, 5, 8]), m=rng.choice([1, 2, 10, 137, 1000, rng.randrange(1, 5000)]), fp=rng.choice([.5, .1, .01, rng.uniform(.001, .99)]), vol=rng.choice([1.0, rng.uniform(.2, 30)]))
@case(gen_n)
def net_radius(dim, m, fp, vol):
    r = bound.compute_net_radius_from_prob(dim, m, fp, vol)
    f = failure(m, V(dim) * r ** dim / vol, dim)
    expect(abs(f - math.log2(fp)) <= 1e-7 * (1 + log2sum(m, dim + 1)), 'net radius %s has log2 failure bound %s, requested %s', r, f, math.log2(fp))

def gen_f(rng, i):
    return dict(m=rng.randrange(1, 3000), rho=rng.uniform(0, 1), vc=rng.choice([2, 3, 5, 9]), c=rng.uniform(.01, 2), tol=rng.choice([None, 0.0, rng.uniform(.01, 9)]))
@case(gen_f)
def formulas(m, rho, vc, c, tol):
    expect(bound.compute_ss_comb_sum(m, vc) == sum(math.comb(2 * m, i) for i in range(vc + 1)), 'number of hit sets of %d samples, VC dimension %d: %s', m, vc, bound.compute_ss_comb_sum(m, vc))
    expect(close(bound.compute_sauer_shelah_bound_log2(m, rho, vc), failure(m, rho, vc - 1)), 'log2 failure bound %s, expected %s', bound.compute_sauer_shelah_bound_log2(m, rho, vc), failure(m, rho, vc - 1))
    expect(close(bound.compute_epsilon_net_radius(c, tol), alpha(tol) * c), 'net radius %s, expected %s', bound.compute_epsilon_net_radius(c, tol), alpha(tol) * c)
    expect(close(bound.compute_vol_unit_sphere(vc), V(vc)), 'unit ball volume')

if __name__ == '__main__':
    main()
