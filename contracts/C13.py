"""bound.py: tail bounds on the k-NN radius"""
from vc.spec import *
from vc.sym import LOG
from contracts import common
from contracts.C12 import mk, ball

def log(x): return Num(LOG(lift(x).r()), kind='f')

def base(v):
    m = mk(v)
    n, k, dim = v.int('m_samples', 2), v.int('k', 1), v.dim('dim', 1)
    r, vol = v.real('conn_rad', gt=0), v.real('vol', gt=0)
    return m, n, k, dim, r, vol

def mass(m, dim, r, vol):
    """ball mass p (unclipped), as the number with p * vol == V_d r^d"""
    x, y = ball(dim, r, vol)
    return Num(n_quot(x.r(), y.r()), kind='f')
def deviation(n, k, p): return mx(Num(n_quot(lift(k).r(), (lift(n) - 1).r()), kind='f') - p, num(0.0))
def hoeffding(n, k, p):
    t = deviation(n, k, p)
    return log(n) - 2 * (n - 1) * t * t

def t_hoeffding(v):
    m, n, k, dim, r, vol = base(v)
    r2 = v.real('conn_rad2', gt=0)
    for f in ('compute_tail_knn_radius_log_prob_hoeffding', 'compute_tail_knn_radius_log_prob_hoeffding_mean_variant'):
        def path():
            p = mass(m, dim, r, vol)
            a = getattr(m, f)(n, k, r, dim, vol)
            v.ensure('%s is finite' % f, finite(a))
            v.ensure('%s is log m minus the Hoeffding exponent of the ball mass' % f, eq(a, hoeffding(n, k, p)))
            v.ensure('%s is at most log m' % f, lift(a) <= log(n))
        v.explore(path)
        def mono():
            a, b = getattr(m, f)(n, k, r, dim, vol), getattr(m, f)(n, k, r2, dim, vol)
            p, q = mass(m, dim, r, vol), mass(m, dim, r2, vol)
            v.ensure('ball mass grows with the radius', imp(r <= r2, p <= q))
            d, e = deviation(n, k, p), deviation(n, k, q)
            v.ensure('the deviation shrinks with the radius', imp(p <= q, and_(d >= e, e >= 0)))
            v.ensure('the exponent shrinks with the radius', imp(and_(d >= e, e >= 0), hoeffding(n, k, p) <= hoeffding(n, k, q)))
            v.ensure('%s at the first radius' % f, eq(a, hoeffding(n, k, p)))
            v.ensure('%s at the second radius' % f, eq(b, hoeffding(n, k, q)))
        v.explore(mono)

def t_chernoff(v):
    m, n, k, dim, r, vol = base(v)
    def path():
        p = mn(mass(m, dim, r, vol), num(1.0))
        a = m.compute_tail_knn_radius_log_prob_chernoff_generic(n, k, r, dim, vol)
        mu = (n - 1) * p
        v.ensure('the bound is finite', finite(a))
        v.ensure('the bound is log m minus the Chernoff exponent of the ball mass', eq(a, log(n) - mu + k * (1 + log(mu) - log(k))))
        v.ensure('the bound is at most log m', a <= log(n))
    v.explore(path)

def t_kl(v):
    m, n, k, dim, r, vol = base(v)
    v.require(k <= n)
    for union in (True, False):
        def path():
            p = mn(mass(m, dim, r, vol), num(1.0))
            if union: a = m.compute_tail_knn_radius_log_prob_chernoff_kl(n, k, r, dim, vol)
            else: a = m.compute_tail_knn_radius_log_prob_chernoff_kl(n, k, r, dim, vol, enable_union_bound_factor=False)
            s = mx(Num(n_quot(lift(k).r(), lift(n).r()), kind='f'), p)
            kl = common.rel_entr(s, p) + common.rel_entr(1 - s, 1 - p)
            top = log(n) if union else num(0.0)
            v.ensure('the mass in the tail is a probability', and_(s >= p, s <= 1, p > 0))
            v.ensure('the bound is %s the Chernoff-KL exponent' % ('log m minus' if union else 'minus'), or_(p >= 1, eq(a, top - (n - 1) * Num(kl.r(), kind='f'))))
            v.ensure('the bound is %s zero when the ball has full mass' % ('log m minus' if union else 'minus'), imp(p >= 1, eq(a, top)))
            v.ensure('the exponent is non-positive', lift(a) <= top)
        v.explore(path)

def tasks():
    q = 'bound.compute_tail_knn_radius_log_prob_'
    return [(q + 'hoeffding', t_hoeffding), (q + 'chernoff_generic', t_chernoff), (q + 'chernoff_kl', t_kl)]
