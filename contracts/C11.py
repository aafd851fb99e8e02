"""bound.doubling_sample_search_over_log2_prob_bound"""
from vc.spec import *
from vc.loops import Invariant
from vc.sym import LOG2

F = z3.Function('log2_prob_bound', z3.IntSort(), z3.RealSort())

CALLS = []
def bound(m):
    m = lift(m)
    CALLS.append(m)
    if m.kind != 'i': raise Unsupported('the bound is asked for a count that is not an integer')
    return Num(F(m.fin), kind='f')

def search(v):
    m = v.eng.load('nonasymptotic/bound.py')
    p = v.real('success_prob', gt=0, lt=1)
    limit = Num(LOG2(1 - p.r()), kind="f")
    fx = lambda x: bound(lift(x))
    good = lambda x: and_(fx(x) <= limit, fx(lift(x) + 1) <= fx(x))
    ints = lambda vals: [n for n, x in vals.items() if numlike(x) and not isinstance(x, Arr) and lift(x).kind == 'i']
    def cands(vals, pre, k):
        out = {}
        for n in ints(vals):
            x = lift(vals[n])
            out['count %s is at least 1' % n] = x >= 1
            out['count %s is at least 2' % n] = x >= 2
            out['count %s satisfies the bound' % n] = good(x)
            out['count %s is 1 or does not satisfy the bound' % n] = or_(eq(x, 1), not_(good(x)))
            for q in ints(vals):
                if q != n: out['%s < %s' % (n, q)] = x < lift(vals[q])
        return out
    def variants(a, b, pre):
        out = {}
        ns = [n for n in ints(a) if n in ints(b)]
        for n in ns:
            x, y = lift(a[n]), lift(b[n])
            out['%s grows towards the overflow limit' % n] = and_(y >= x + 1, y <= num(1e300))
            for q in ns:
                if q != n:
                    d0, d1 = lift(a[q]) - x, lift(b[q]) - y
                    out['%s - %s decreases' % (q, n)] = and_(d0 >= 1, d1 < d0, d1 >= 0)
        return out
    v.eng.loop_contracts.append(Invariant(v, 'doubling_sample_search_over_log2_prob_bound', cands, variants, 'loop invariant'))
    def path():
        del CALLS[:]
        r = m.doubling_sample_search_over_log2_prob_bound(bound, p)
        ok = isnum(r) and lift(r).kind == 'i'
        v.ensure('the answer is an integer count', ok)
        if not ok: return
        v.ensure('the answer meets the requested probability and the bound does not increase after it', good(r))
        v.ensure('one sample less does not, unless the answer is the smallest count tried', or_(eq(r, 2), not_(good(r - 1))))
        v.ensure('the answer is at least 2', r >= 2)
    v.explore(path, raises=lambda e: isinstance(e, OverflowError) and len(CALLS) > 0 and CALLS[-1] > num(1e100))

def tasks():
    return [('bound.doubling_sample_search_over_log2_prob_bound', search)]
