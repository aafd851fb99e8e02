"""contracts of functions that other contracts rely on (each is verified against its body by the named property)"""
import z3
from vc.spec import *
from vc import nps, arr as A
from vc.arr import _n

_R = z3.RealSort()
SEG = z3.Function('seg_hit', *([_R] * 8 + [z3.BoolSort()]))
SEG_T = z3.Function('seg_t', *([_R] * 8 + [_R]))
SEG_U = z3.Function('seg_u', *([_R] * 8 + [_R]))

def seg_common(x, t, u):
    """P(t) == Q(u) for the segments with end points x[0:2]-x[2:4] and x[4:6]-x[6:8]"""
    return z3.And(*[x[k] + t * (x[2 + k] - x[k]) == x[4 + k] + u * (x[6 + k] - x[4 + k]) for k in (0, 1)])
def unit(*ts):
    return z3.And(*[c for t in ts for c in (t >= 0, t <= 1)])

def install_segments():
    """detect_intersect contract (verified by C03): seg_hit(a,b,c,d) => the closed segments meet at parameters seg_t, seg_u"""
    def lem(app):
        x = app.children()
        t, u = SEG_T(*x), SEG_U(*x)
        return [z3.Implies(app, z3.And(unit(t, u), seg_common(x, t, u)))]
    REG.applemma['seg_hit'] = lem

def meets_at(*pairs):
    """lemma source for the converse direction: segments with a common point at one of the given parameters are hit"""
    ps = [(lift(t).r(), lift(u).r() if not callable(u) else u) for t, u in pairs]
    def src(inst):
        done = inst.done_dyn.setdefault(('meets', id(src)), set())
        out = []
        for i, app in list(inst.facts.apps.get('seg_hit', {}).items()):
            if i in done: continue
            done.add(i)
            x = app.children()
            for t, u in ps:
                uu = u(x, t) if callable(u) else u
                out.append(z3.Implies(z3.And(unit(t, uu), seg_common(x, t, uu)), app))
        return out
    return src

def detect_intersect(s1e1, s1e2, s2e1, s2e2):
    """stub carrying the contract of util.detect_intersect"""
    a, b, c, d = [nps.asarr(x) for x in (s1e1, s1e2, s2e1, s2e2)]
    assert a.shape == b.shape and c.shape == d.shape
    if len(a.shape) < 2: a, b = a[None, :], b[None, :]
    if len(c.shape) < 2: c, d = c[None, :], d[None, :]
    for x in (a, c):
        if x.ndim != 2 or not A.same_dim(x.shape_[1], 2):
            raise Unsupported('detect_intersect on points that are not planar')
    sh = A.bcast_shapes([a.shape_[:1], c.shape_[:1]])
    ms = [A.bmap(x.shape_[:1], sh) for x in (a, b, c, d)]
    fs = [x.snap() for x in (a, b, c, d)]
    def at(ix):
        v = []
        for m, f in zip(ms, fs):
            for k in (0, 1):
                e = _n(f(m(ix) + (k,)))
                if e.special(): raise Unsupported('detect_intersect on values that may be nan')
                v.append(e.r())
        return mkb(SEG(*v))
    return A.Arr(sh, at, 'b')

# ---- scipy: what bound.py uses of it
GAMMA = z3.Function('gamma', _R, _R)
COMB = z3.Function('comb', z3.IntSort(), z3.IntSort(), z3.IntSort())

def scipy_stub():
    """scipy.special.gamma (positive on positive arguments), scipy.special.comb(exact=True) (binomial coefficient:
    positive integer for 0 <= k <= n, zero beyond, C(n,0) = 1), scipy.stats.entropy (relative entropy)"""
    import types
    def gl(app): return [z3.Implies(app.arg(0) > 0, app > 0)]
    REG.applemma['gamma'] = gl
    def cl(app):
        n, k = app.arg(0), app.arg(1)
        return [app >= 0, z3.Implies(z3.And(k >= 0, k <= n), app >= 1), z3.Implies(z3.And(n >= 0, k > n), app == 0), z3.Implies(z3.And(n >= 0, k == 0), app == 1)]
    REG.applemma['comb'] = cl
    def gamma(x):
        x = lift(x)
        if x.special(): raise Unsupported('gamma of nan/inf')
        return Num(GAMMA(x.r()), kind='f', np=True)
    def comb(n, k, exact=False, repetition=False, legacy=None):
        if exact is not True or repetition is not False: raise Unsupported('inexact binomial coefficient')
        n, k = lift(n), lift(k)
        return Num(COMB(as_int(n), as_int(k)), kind='i')
    def entropy(pk, qk=None, base=None, axis=0):
        if qk is None or base is not None: raise Unsupported('entropy form')
        p, q = nps.asarr(pk), nps.asarr(qk)
        if p.ndim != 1 or p.shape_ != q.shape_ or p.shape_[0] != 2: raise Unsupported('entropy of other than two-point distributions')
        ps, qs = [[_n(x.at(i)) for i in (0, 1)] for x in (p, q)]
        if any(x.special() for x in ps + qs): raise Unsupported('entropy of nan/inf')
        P, Q = ps[0] + ps[1], qs[0] + qs[1]
        r = None
        for a, b in zip(ps, qs):
            t = rel_entr(n_div(a, P), n_div(b, Q))
            r = t if r is None else r + t
        r.np = True
        return r
    return types.SimpleNamespace(special=types.SimpleNamespace(gamma=gamma, comb=comb), stats=types.SimpleNamespace(entropy=entropy))

def as_int(n):
    """integer term of a number that holds an integer"""
    if n.kind == 'i': return n.fin
    t = n.fin
    if z3.is_to_real(t): return t.arg(0)
    s = z3.simplify(t)
    if z3.is_to_real(s): return s.arg(0)
    if z3.is_mul(s) and all(z3.is_rational_value(c) or z3.is_to_real(c) for c in s.children()):
        out = None
        for c in s.children():
            if z3.is_rational_value(c):
                if c.denominator_as_long() != 1: raise Unsupported('binomial coefficient of a non-integer')
                c = z3.IntVal(c.numerator_as_long())
            else: c = c.arg(0)
            out = c if out is None else out * c
        return out
    raise Unsupported('binomial coefficient of a value that may not be an integer')

def rel_entr(a, b):
    """a log(a/b), 0 when a == 0 <= b, +inf otherwise"""
    a, b = lift(a), lift(b)
    pos = t_and(a.r() > 0, b.r() > 0)
    zero = t_and(a.r() == 0, b.r() >= 0)
    from vc.sym import LOG
    val = Num(z3.If(t_bool(pos), a.r() * LOG(n_quot(a.r(), b.r())), z3.RealVal(0)), pinf=simp(t_not(t_or(pos, zero))), kind='f')
    return val

def vol_unit(dim):
    """volume of the unit ball"""
    d = lift(dim)
    h = d / 2
    from vc.sym import POW
    return Num(n_quot(POW(lift(nps.NPModule.pi).r(), h.r()), GAMMA((h + 1).r())), kind='f')
