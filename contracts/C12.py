"""bound.py: sample bounds, radii and the formulas behind them"""
from vc.spec import *
from vc.sym import POW, LOG2, SQRT, ctx
from contracts import common

def mk(v, search=None):
    v.eng.stubs['scipy'] = common.scipy_stub()
    if search:
        v.eng.override['nonasymptotic/bound.py'] = {'doubling_sample_search_over_log2_prob_bound': search}
    return v.eng.load('nonasymptotic/bound.py')

def sqrt1(t):
    """sqrt(1 + t^2)"""
    return Num(SQRT((1 + t * t).r()), kind='f')
def combs(m, vc):
    """sum_{i=0..vc} C(2m, i)"""
    return A.vec_reduce('sum', [mkdim(vc + 1)], lambda i: Num(common.COMB((2 * lift(m)).fin, intt(iterm(i))), kind='i'))
def log2(x): return Num(LOG2(lift(x).r()), kind='f')
def ball(dim, r, vol):
    """(x, y): x/y is the normalised volume of a ball of radius r"""
    V = common.vol_unit(dim)
    return V * power(r, dim), vol

def base(v):
    dim = v.dim('dim', 1)
    c = v.real('clearance', gt=0)
    vol = v.real('vol', gt=0)
    return dim, c, vol

def alphas(v, m):
    """tolerance argument and alpha: both the optimal (tol > 0) and the existence (None) case"""
    t = v.real('tol', lo=0)
    return [('tolerance', t, common_alpha(t)), ('existence only', None, lift(1.0))]
def common_alpha(t):
    return Num(n_quot(t.r(), sqrt1(t).r()), kind='f')

def rho_is(rho, dim, r, vol):
    x, y = ball(dim, r, vol)
    return eq(lift(rho) * y, x)

def unit_ball(v):
    m = mk(v)
    d = v.dim('dim', 1)
    def path():
        r = m.compute_vol_unit_sphere(d)
        v.ensure('volume of the unit ball is pi^(d/2) / gamma(d/2 + 1)', eq(r, common.vol_unit(d)))
        v.ensure('it is positive', r > 0)
    v.explore(path)

def rho(v):
    m = mk(v)
    dim, c, vol = base(v)
    for name, tol, alpha in alphas(v, m):
        def path():
            r = m.compute_epsilon_net_radius(c, tol)
            v.ensure('net radius is alpha * clearance (%s)' % name, eq(r, alpha * c))
            v.ensure('alpha <= 1 (%s)' % name, and_(imp(True if tol is None else tol > 0, r > 0), r >= 0, r <= c))
            q = m.compute_rho(c, tol, dim, vol)
            v.ensure('rho is the normalised volume of a ball of the net radius (%s)' % name, rho_is(q, dim, alpha * c, vol))
        v.explore(path)

def bound_value(m_, rho_, dim): return 1 + log2(combs(m_, dim + 1)) - rho_ * m_ / 2

def sauer(v):
    m = mk(v)
    k, rho_, dim = v.int('m', 1), v.real('rho', lo=0), v.dim('dim', 1)
    def path():
        s = m.compute_ss_comb_sum(k, dim + 1)
        v.ensure('number of hit sets is sum_{i<=d+1} C(2m,i)', eq(s, combs(k, dim + 1)))
        v.ensure('it is a positive integer', and_(s >= 1) if lift(s).kind == 'i' else False)
        r = m.compute_sauer_shelah_bound_log2(k, rho_, dim + 1)
        v.ensure('failure bound is 2 * hit sets * 2^(-rho m/2) in log2', eq(r, bound_value(k, rho_, dim)))
    v.explore(path)

def numerical(v):
    seen = {}
    def search(fn, p):
        """contract of doubling_sample_search_over_log2_prob_bound (C11)"""
        n = v.int('count', 2)
        a, b = lift(fn(n)), lift(fn(n + 1))
        ctx().assume(t_bool(as_t(and_(a <= log2(1 - p), b <= a))))
        seen.update(n=n, p=p, fn=fn)
        return n
    m = mk(v, search)
    dim, c, vol = base(v)
    for name, tol, alpha in alphas(v, m):
        p = v.real('success_prob')
        def path():
            r = m.compute_numerical_bound(c, p, vol, dim, tol)
            v.ensure('success probability is in (0,1)', and_(p > 0, p < 1))
            ok = isinstance(r, tuple) and len(r) == 2
            v.ensure('a count and a connection radius are returned', ok)
            if not ok: return
            n, cr = r
            q = lift(m.compute_rho(c, tol, dim, vol))
            v.ensure('rho is the normalised ball volume (%s)' % name, rho_is(q, dim, alpha * c, vol))
            v.ensure('the failure bound of the returned count meets the requested probability (%s)' % name, bound_value(n, q, dim) <= log2(1 - p))
            k = v.int('k', 1)
            v.ensure('the search is given the failure bound as a function of the count (%s)' % name, eq(seen['fn'](k), bound_value(k, q, dim)))
            v.ensure('the search is given the requested probability', eq(seen['p'], p))
            v.ensure('the count is the one found by the search', eq(n, seen['n']))
            s = Num(SQRT((1 - alpha * alpha).r()), kind='f')
            v.ensure('connection radius is 2(alpha + sqrt(1-alpha^2)) clearance (%s)' % name, eq(cr, 2 * (alpha + s) * c))
            if tol is not None:
                v.ensure('stand-alone connection radius agrees', eq(cr, m.compute_connection_radius(c, tol)))
        v.explore(path, raises=lambda e: and_(isinstance(e, ArithmeticError), or_(p <= 0, p >= 1)))

def conn_radius(v):
    m = mk(v)
    c, t = v.real('clearance', gt=0), v.real('tol', lo=0)
    def path():
        r = m.compute_connection_radius(c, t)
        v.ensure('connection radius is 2 (tol + 1)/sqrt(1 + tol^2) clearance', eq(r * sqrt1(t), 2 * (t + 1) * c))
    v.explore(path)

def net_radius(v):
    m = mk(v)
    dim, k, vol = v.dim('dim', 1), v.int('m', 1), v.real('vol', gt=0)
    fp = v.real('failure_prob', gt=0, lt=1)
    def path():
        r = lift(m.compute_net_radius_from_prob(dim, k, fp, vol))
        v.ensure('the net radius is positive', r > 0)
        x, y = ball(dim, r, vol)
        q = Num(n_quot(x.r(), y.r()), kind='f')
        v.ensure('the failure bound of the sample count at the net radius equals the failure probability', eq(bound_value(k, q, dim), log2(fp)))
    v.explore(path)

def tasks():
    q = 'bound.'
    return [(q + 'compute_vol_unit_sphere', unit_ball), (q + 'compute_rho', rho), (q + 'compute_sauer_shelah_bound_log2', sauer),
            (q + 'compute_numerical_bound', numerical), (q + 'compute_connection_radius', conn_radius), (q + 'compute_net_radius_from_prob', net_radius)]
