"""vocabulary of the contracts"""
import z3
from .sym import *
from .arr import *
from . import arr as A, nps, sym, prover
from .arr import _n

def T(x):
    """z3/py bool of a spec expression"""
    return as_t(x)
def and_(*xs): return mkb(t_and(*[T(x) for x in xs]))
def or_(*xs): return mkb(t_or(*[T(x) for x in xs]))
def not_(x): return mkb(t_not(T(x)))
def imp(a, b): return mkb(t_imp(T(a), T(b)))
def iff(a, b):
    a, b = T(a), T(b)
    if isinstance(a, bool): a, b = b, a
    if isinstance(a, bool): return a == b
    if isinstance(b, bool): return mkb(a if b else t_not(a))
    return mkb(a == b)
def eq(a, b): return A.val_eq(a, b) if not (numlike(a) and numlike(b)) else n_eq(lift(a), lift(b))
def ne(a, b): return not_(eq(a, b))
def ite(c, a, b): return n_ite(T(c), lift(a), lift(b))
def mn(a, b): return n_min(lift(a), lift(b))
def mx(a, b): return n_max(lift(a), lift(b))
def clamp(x, lo, hi): return mn(mx(x, lo), hi)
def ab(x): return abs(lift(x))
def forall(d, f):
    f = A.in_spec(f)
    return mkb(A.forall_t([mkdim(d)], lambda k: T(f(inum(k) if not isinstance(k, PIx) else k))))
def exists(d, f):
    f = A.in_spec(f)
    return mkb(A.exists_t([mkdim(d)], lambda k: T(f(inum(k) if not isinstance(k, PIx) else k))))
def shape_is(a, shape):
    if not isinstance(a, Arr):
        return False
    if len(a.shape_) != len(shape):
        return False
    return mkb(t_and(*[A.dim_eq_term(x, mkdim(y)) for x, y in zip(a.shape_, shape)]))
def finite(x):
    return mkb(lift(x).isfin())
def num(x): return lift(x)
def isnum(x): return numlike(x)
def scal(x):
    """value of a scalar or one-element array"""
    return x._scalar() if isinstance(x, Arr) else x
def norm(d, f):
    """Euclidean norm of the vector k -> f(k), k in [0,d)"""
    f = A.in_spec(f)
    return A.vnorm([mkdim(d)], lambda k: _n(f(inum(k) if not isinstance(k, PIx) else k)))
def power(x, y):
    return Num(sym.POW(lift(x).r(), lift(y).r()), kind='f')

class QReal:
    """existential over a real witness, used in goals only: the lemmas `body(w) => e` for ground terms w (applications of
    the given functions, or given terms) are all consequences of e being the existential, so proving e proves it."""
    def __init__(self, f, syms, terms):
        self.f, self.syms, self.terms = f, syms, [lift(t).r() for t in terms]
        self.e = fresh_bool('ex')
        REG.add_dynamic(str(self.e), self)
    def lemmas(self, inst):
        done = inst.done_dyn.setdefault(('qreal', id(self)), set())
        out = []
        ws = list(self.terms)
        for n in self.syms:
            ws += list(inst.facts.apps.get(n, {}).values())
        for w in ws:
            if w.get_id() in done: continue
            done.add(w.get_id())
            out.append(t_imp(T(self.f(Num(w, kind='f'))), self.e))
        return out
def exists_real(f, syms=(), terms=()):
    return B(QReal(A.in_spec(f), syms, terms).e)
def hint(d, i):
    """instantiate axioms over the axis d at index i too"""
    return (domkey(mkdim(d)), iterm(lift(i).fin))
