"""bound.py: search for the effective radius, closed-form effective radius"""
from vc.spec import *
from vc.loops import Invariant
from vc.sym import LOG, SQRT
from contracts import common
from contracts.C12 import mk, ball
from contracts.C13 import mass, log

G = z3.Function('radius_log_prob', z3.RealSort(), z3.RealSort())
def bound(r):
    r = lift(r)
    if r.special(): raise Unsupported('bound of nan')
    return Num(G(r.r()), kind='f')

def search(v):
    m = mk(v)
    lb0, width, tol, p = v.real('rad_lb'), v.real('width', gt=0), v.real('tol', gt=0), v.real('success_prob', gt=0, lt=1)
    ub0 = lb0 + width
    limit = log(1 - p)
    good = lambda x: and_(bound(x) <= limit, bound(lift(x) - tol / 2) < bound(x))
    reals = lambda vals: [n for n, x in vals.items() if numlike(x) and not isinstance(x, Arr) and lift(x).kind == 'f']
    ghost = {}
    def cands(vals, pre, k):
        out = {}
        ghost['w'] = [vals[n] for n in reals(vals)]
        for n in reals(vals):
            x = lift(vals[n])
            out['%s stays in the interval' % n] = and_(x >= lb0, x <= ub0)
            out['%s was accepted or is the lower bound' % n] = or_(eq(x, lb0), good(x))
            out['%s was rejected or is the upper bound' % n] = or_(eq(x, ub0), not_(good(x)))
            for q in reals(vals):
                if q != n: out['%s < %s' % (n, q)] = x < lift(vals[q])
        return out
    def variants(a, b, pre):
        out = {}
        ns = [n for n in reals(a) if n in reals(b)]
        for n in ns:
            for q in ns:
                if q != n:
                    d0, d1 = lift(a[q]) - lift(a[n]), lift(b[q]) - lift(b[n])
                    out['%s - %s shrinks by a constant factor while it exceeds the tolerance' % (q, n)] = and_(d0 > tol, d1 <= d0 * 0.9)
        return out
    v.eng.loop_contracts.append(Invariant(v, 'halving_radius_search_over_log_prob_bound', cands, variants))
    def path():
        r = m.halving_radius_search_over_log_prob_bound(bound, lb0, ub0, p, tol)
        v.ensure('the radius lies between the bounds', and_(r >= lb0, r <= ub0))
        v.ensure('the failure bound was found to meet the probability at the radius, or it is the lower bound', or_(eq(r, lb0), good(r)))
        w = ghost.get('w', []) + [ub0]
        v.ensure('a rejected radius, or the upper bound, is less than the tolerance above',
                 or_(*[and_(lift(x) > r, lift(x) - r <= tol, or_(eq(x, ub0), not_(good(x)))) for x in w]))
    v.explore(path)

def closed(v):
    m = mk(v)
    n, k, dim = v.int('m_samples', 2), v.int('k', 1), v.dim('dim', 1)
    vol, fp = v.real('vol', gt=0), v.real('failure_prob', gt=0, lt=1)
    v.require(k <= n - 1)
    L = log(n) - log(fp)
    s = Num(SQRT((2 * k * L).r()), kind='f')
    v.require(s < k)           # the closed form is defined
    def lem(inst):
        """log a - log b <= -x - x^2/2 for 0 < a <= b, x = 1 - a/b"""
        out = []
        apps = list(inst.facts.apps.get('log', {}).values())
        for P in apps:
            for Q in apps:
                a, b = P.arg(0), Q.arg(0)
                out.append(z3.Implies(z3.And(a > 0, a <= b), 2 * (P - Q) * b * b <= -2 * (b - a) * b - (b - a) * (b - a)))
        return out
    def path():
        r = lift(m.compute_eff_conn_rad_bound(n, k, dim, vol, fp))
        p = mass(m, dim, r, vol)
        mu = (n - 1) * p
        v.ensure('the radius is positive', r > 0)
        v.ensure('the expected number of samples within the radius is k - sqrt(2 k log(m/gamma))', eq(mu, k - s))
        v.ensure('it is below k', mu < k)
        v.ensure('the ball mass is at most 1', p <= 1)
        # steps of the inequality; each later step only assumes what an earlier one established
        D = log(mu) - log(k)
        i1 = eq(s * s, 2 * k * L)
        i2 = D * 2 * k * k <= -2 * s * k - s * s
        v.ensure('step: s^2 = 2 k log(m/gamma)', i1)
        d_, m_, s_ = v.real('d'), v.real('mu'), v.real('s')
        kk = v.real('kk', gt=0)
        v.ensure('step: logarithm at that mean', imp(and_(eq(mu, k - s), mu > 0, mu < k), 2 * D * k * k <= -2 * (k - mu) * k - (k - mu) * (k - mu)), extra_lemmas=[lem])
        v.ensure('step: rewriting in s', imp(and_(eq(m_, kk - s_), 2 * d_ * kk * kk <= -2 * (kk - m_) * kk - (kk - m_) * (kk - m_)), d_ * 2 * kk * kk <= -2 * s_ * kk - s_ * s_))
        a = m.compute_tail_knn_radius_log_prob_chernoff_generic(n, k, r, dim, vol)
        i3 = eq(a, log(n) - mu + k * (1 + log(mu) - log(k)))
        v.ensure('the generic Chernoff bound at the radius is log m - mu + k (1 + log mu - log k)', i3)
        l_ = v.real('l')
        v.ensure('step: exponent is at most -s - log(m/gamma)', imp(and_(eq(s_ * s_, 2 * kk * l_), d_ * 2 * kk * kk <= -2 * s_ * kk - s_ * s_), kk * d_ <= -s_ - l_))
        i4 = k * D <= -s - L
        v.ensure('the generic Chernoff bound meets the failure probability', imp(and_(i3, i4, eq(mu, k - s)), a <= log(fp)))
    v.explore(path)

def tasks():
    q = 'bound.'
    return [(q + 'halving_radius_search_over_log_prob_bound', search), (q + 'compute_eff_conn_rad_bound', closed)]
