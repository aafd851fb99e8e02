"""Symbolic scalars, the lemma registry, path contexts.

Terms are z3 terms over mathematical Int/Real/Bool plus uninterpreted functions.  Everything that
is quantified in the source program (np.all over a symbolic axis, min/max/norm/sum reductions,
boolean-mask selections, folded loops) is represented by a *proxy* symbol whose defining axioms are
instantiated on demand, ground, by prover.py.
"""
import itertools
from fractions import Fraction
import z3

class Unsupported(BaseException):
    """The translator met a construct it has no semantics for (never caught by code under check)."""

class PathEnd(BaseException):
    """This symbolic path is finished (loop back edge, or an assumption made it infeasible)."""

class Restart(BaseException):
    """Exploration must be restarted with more information (a widened loop frame, ...)."""

class DeadValue(Unsupported):
    """value computed by a loop iteration that no execution reaches"""

class PoisonUsed(BaseException):
    def __init__(self, name):
        BaseException.__init__(self, name)
        self.name = name

# ----------------------------------------------------------------------------------- z3 helpers
def t_and(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)

def t_or(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)

def t_not(x):
    if x is True:
        return False
    if x is False:
        return True
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)

def t_imp(a, b):
    return t_or(t_not(a), b)

def t_bool(x):
    if x is True:
        return z3.BoolVal(True)
    if x is False:
        return z3.BoolVal(False)
    return x

def t_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    return z3.If(c, a, b)

def t_iteb(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is True and b is False:
        return c
    if a is False and b is True:
        return t_not(c)
    if a is True:
        return t_or(c, b)
    if a is False:
        return t_and(t_not(c), b)
    if b is True:
        return t_or(t_not(c), a)
    if b is False:
        return t_and(c, a)
    return z3.If(c, a, b)

def simp(t):
    if isinstance(t, bool):
        return t
    s = z3.simplify(t)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return s

def simpi(t):
    """simplify an Int index term; returns python int when constant"""
    if isinstance(t, int):
        return t
    s = z3.simplify(t)
    if z3.is_int_value(s):
        return s.as_long()
    return s

def real(t):
    if isinstance(t, (int, float, Fraction)):
        f = Fraction(t)
        return z3.RealVal(f)
    if z3.is_int(t):
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    return t

def intt(t):
    return z3.IntVal(t) if isinstance(t, int) else t

def is_const(t):
    return z3.is_int_value(t) or z3.is_rational_value(t)

def const_val(t):
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None

_counter = itertools.count()
def fresh_name(base):
    return '%s!%d' % (base, next(_counter))

def fresh_int(base='k'):
    return z3.Int(fresh_name(base))

def fresh_real(base='x'):
    return z3.Real(fresh_name(base))

def fresh_bool(base='b'):
    return z3.Bool(fresh_name(base))

# ----------------------------------------------------------------------------------- registry
class Registry:
    """symbol name -> lemma source.  Static lemmas: list of formulas.  Dynamic: object with
    .lemmas(state) yielding new formulas given the current instantiation pools."""
    def __init__(self):
        self.static = {}      # const/func name -> [formula]
        self.dynamic = {}     # const/func name -> [source]
        self.funcdom = {}     # func name -> tuple of domain keys (or None) per argument
        self.constdom = {}    # const name -> domain key
        self.skrange = {}     # fresh index constant -> its in-range condition
        self.background = {}  # facts a first proof attempt leaves out
        self.applemma = {}    # func name -> f(app) -> [formula]
        self.pairs = {}       # family -> list ; used by norm etc.
        self.funclemma = {}   # func name -> f(list of apps) -> [formula]   (pairwise axioms)

    def add_static(self, name, *fs):
        self.static.setdefault(name, []).extend(t_bool(f) for f in fs if f is not True)

    def add_dynamic(self, name, src):
        self.dynamic.setdefault(name, []).append(src)

REG = Registry()

def reset_registry():
    global _counter
    REG.__init__()
    MEMO.clear()
    DOMTERM.clear()
    _domoff.clear()
    SELS.clear()
    _counter = itertools.count()

MEMO = {}
SELS = {}

def domkey(d):
    """key of an index domain [0,d): python int or the z3 term's text (terms are simplified)"""
    if isinstance(d, int):
        return d
    if isinstance(d, Num):
        d = d.fin
    d = simpi(d)
    if isinstance(d, int):
        return d
    k = d.sexpr()
    if k not in DOMTERM:
        DOMTERM[k] = d
    return k

DOMTERM = {}    # domain key -> its size term
_domoff = {}
def dom_offset(k1, k2):
    """integer c with size(k1) == size(k2) + c, or None"""
    if isinstance(k1, int) or isinstance(k2, int):
        return None
    key = (k1, k2)
    if key not in _domoff:
        a, b = DOMTERM.get(k1), DOMTERM.get(k2)
        r = simpi(a - b) if a is not None and b is not None else None
        _domoff[key] = r if isinstance(r, int) and abs(r) <= 3 else None
    return _domoff[key]

# ----------------------------------------------------------------------------------- context
class Ctx:
    """One symbolic execution path."""
    def __init__(self, decisions=(), base_pc=(), parent=None, engine=None):
        self.decisions = list(decisions)
        self.pos = 0
        self.base_pc = list(base_pc)
        self.pc = []
        self.pcset = set()
        self.pending = []
        self.journal = []
        self.parent = parent
        self.engine = engine if engine is not None else (parent.engine if parent else None)
        self.events = []
        self.keep = []
        self.closed = False
        self.applied = None
        for f in self.base_pc:
            self._index(f)

    def _index(self, f):
        if isinstance(f, bool):
            return
        if z3.is_and(f):
            for c in f.children():
                self._index(c)
        self.pcset.add(f.get_id())

    def full_pc(self):
        return self.base_pc + self.pc

    def assume(self, t):
        if isinstance(t, B):
            t = t.t
        if t is True:
            return
        if t is False:
            raise PathEnd()
        s = simp(t)
        if s is True:
            return
        if s is False:
            raise PathEnd()
        self.pc.append(t)
        self.keep.append(s)
        self._index(t)
        self._index(s)

    def branch(self, t):
        t0 = t
        t = simp(t)
        if t is True or t is False:
            return t
        nt = t_not(t)
        if t.get_id() in self.pcset:
            return True
        if not isinstance(nt, bool) and nt.get_id() in self.pcset:
            return False
        if self.closed:
            from . import prover
            if not prover.feasible(self.full_pc() + [nt]):
                return True
            if not prover.feasible(self.full_pc() + [t]):
                return False
            raise Unsupported('case split on %s while evaluating a finished path' % str(t)[:200])
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            forced = d[1]
            d = d[0]
        else:
            from . import prover
            if prover.quickly_unsat(self.full_pc() + [nt]):
                can_t, can_f = True, False
            elif prover.quickly_unsat(self.full_pc() + [t]):
                can_t, can_f = False, True
            else:
                can_t = prover.feasible(self.full_pc() + [t])
                can_f = prover.feasible(self.full_pc() + [nt]) if can_t else True
            if can_t and can_f:
                self.pending.append(self.decisions[:self.pos] + [(False, False)])
                d, forced = True, False
            elif can_t:
                d, forced = True, True
            else:
                d, forced = False, True
            self.decisions.append((d, forced))
            self.pos += 1
            if len(self.decisions) > 400:
                raise Unsupported('too many branches on one path')
        lit = t if d else nt
        self.pc.append(lit)
        self._index(lit)
        return d

    def log_undo(self, fn, obj=None, what=None):
        self.journal.append((fn, obj, what))

def take_mark():
    return [(c, len(c.journal), len(c.pc)) for c in STACK.items]

class travel:
    """temporarily restore the heap (and the path stack) to an earlier mark"""
    def __init__(self, mark):
        self.mark = mark
    def __enter__(self):
        self.saved = list(STACK.items)
        cur = self.saved
        mk = self.mark
        p = 0
        while p < len(cur) and p < len(mk) and cur[p] is mk[p][0]:
            p += 1
        self.ops = []
        # undo everything deeper than the common prefix, then the prefix's later entries
        for c in reversed(cur[p:]):
            n = len(c.journal) if c.applied is None else c.applied
            for e in reversed(c.journal[:n]):
                e[0]()
                self.ops.append(e[0])
        for q in range(p - 1, -1, -1):
            c, ln, _ = mk[q]
            n = len(c.journal) if c.applied is None else c.applied
            for e in reversed(c.journal[ln:n]):
                e[0]()
                self.ops.append(e[0])
        self.apps = []
        for c, _, _ in mk:
            self.apps.append((c, c.applied))
        for c, ln, _ in mk[p:]:
            a = c.applied
            start = 0 if a is not None else None
            if start is None:
                raise Unsupported('time travel into a running path')
            for e in c.journal[:ln]:
                e[0]()
                self.ops.append(e[0])
        for c, ln, _ in mk:
            c.applied = ln
        STACK.items[:] = [c for c, _, _ in mk]
        return self
    def __exit__(self, *a):
        for op in reversed(self.ops):
            op()
        for c, ap in self.apps:
            c.applied = ap
        STACK.items[:] = self.saved
        return False

class _Stack:
    def __init__(self):
        self.items = []
    @property
    def top(self):
        if not self.items:
            raise Unsupported('symbolic operation outside an exploration')
        return self.items[-1]

STACK = _Stack()

def ctx():
    return STACK.top

def decide(t):
    """branch on z3 Bool"""
    return ctx().branch(t)

def explore(fn, base_pc=(), parent=None, engine=None, max_paths=4000):
    """Run fn() along every feasible path.  Yields (kind, value, ctx); kind in ret/raise/end.
    The heap journal of the path is undone after the consumer is done with it."""
    work = [[]]
    n = 0
    while work:
        dec = work.pop()
        c = Ctx(dec, base_pc, parent, engine)
        STACK.items.append(c)
        depth = len(STACK.items)
        try:
            try:
                v = fn()
                kind = 'ret'
            except PathEnd:
                kind, v = 'end', None
            except Exception as e:      # an exception of the program under check
                kind, v = 'raise', e
            except BaseException:
                for swap, _, _ in reversed(c.journal):
                    swap()
                c.applied = 0
                raise
        finally:
            del STACK.items[depth - 1:]
        c.closed = True
        work.extend(c.pending)
        n += 1
        if n > max_paths:
            raise Unsupported('more than %d paths' % max_paths)
        STACK.items.append(c)
        try:
            yield kind, v, c
        finally:
            STACK.items.pop()
            for swap, _, _ in reversed(c.journal):
                swap()
            c.applied = 0

# ----------------------------------------------------------------------------------- booleans
def as_t(x):
    """python bool / B / numeric -> z3 Bool or python bool"""
    if isinstance(x, bool):
        return x
    if isinstance(x, B):
        return x.t
    if isinstance(x, Num):
        return x.truth()
    if isinstance(x, (int, float)):
        return bool(x)
    if hasattr(x, '_truth_term'):
        return x._truth_term()
    raise Unsupported('boolean from %r' % type(x))

def mkb(t):
    if isinstance(t, bool):
        return t
    if isinstance(t, B):
        return t
    return B(t)

class B:
    __slots__ = ('t',)
    __array_priority__ = 100
    def __init__(self, t):
        self.t = t
    def __bool__(self):
        return ctx().branch(self.t)
    def __index__(self):
        return 1 if self else 0
    def _arr(self, o):
        return hasattr(o, '_is_arr')
    def __and__(self, o):
        if self._arr(o):
            return NotImplemented
        if isinstance(o, (bool, B)):
            return mkb(t_and(self.t, as_t(o)))
        return self.num() & o
    __rand__ = __and__
    def __or__(self, o):
        if self._arr(o):
            return NotImplemented
        return mkb(t_or(self.t, as_t(o)))
    __ror__ = __or__
    def __xor__(self, o):
        if self._arr(o):
            return NotImplemented
        o = as_t(o)
        return mkb(t_not(self.t) if o is True else self.t if o is False else z3.Xor(self.t, o))
    __rxor__ = __xor__
    def __invert__(self):
        return mkb(t_not(self.t))
    def num(self):
        return Num(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)), kind='i')
    def __eq__(self, o):
        if self._arr(o):
            return NotImplemented
        if isinstance(o, (bool, B)):
            o = as_t(o)
            return mkb(self.t if o is True else t_not(self.t) if o is False else self.t == o)
        if isinstance(o, (Num, int, float)):
            return self.num() == o
        return False
    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r if isinstance(r, B) else r
    __hash__ = None
    def __add__(self, o): return self.num() + o
    __radd__ = __add__
    def __sub__(self, o): return self.num() - o
    def __rsub__(self, o): return o - self.num()
    def __mul__(self, o): return self.num() * o
    __rmul__ = __mul__
    def __lt__(self, o): return self.num() < o
    def __le__(self, o): return self.num() <= o
    def __gt__(self, o): return self.num() > o
    def __ge__(self, o): return self.num() >= o
    def astype(self, ty, **k):
        from .arr import dtype_kind
        kd = dtype_kind(ty)
        if kd == 'b':
            return self
        n = self.num()
        n.np = True
        return n if kd == 'i' else n.tofloat()
    def all(self, *a, **k): return self
    def any(self, *a, **k): return self
    def item(self): return self
    def __repr__(self):
        return 'B(%s)' % self.t

# ----------------------------------------------------------------------------------- numbers
def lift(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, bool):
        return Num(z3.IntVal(int(x)), kind='i')
    if isinstance(x, int):
        return Num(z3.IntVal(x), kind='i')
    if isinstance(x, float):
        if x != x:
            return Num(z3.RealVal(0), nan=True, kind='f')
        if x in (float('inf'), float('-inf')):
            return Num(z3.RealVal(0), pinf=x > 0, ninf=x < 0, kind='f')
        return Num(z3.RealVal(Fraction(x)), kind='f')
    if isinstance(x, Fraction):
        return Num(z3.RealVal(x), kind='f')
    if isinstance(x, B):
        return x.num()
    if z3.is_expr(x):
        return Num(x, kind='i' if z3.is_int(x) else 'f')
    if hasattr(x, '_scalar'):
        return lift(x._scalar())
    return None

def numlike(x):
    return isinstance(x, (Num, int, float, Fraction, B))

class Num:
    """Extended real / integer.  `np` marks numpy scalars (division by zero yields nan/inf instead
    of raising).  IEEE rounding and overflow are not modelled (stated assumption)."""
    __slots__ = ('fin', 'nan', 'pinf', 'ninf', 'kind', 'np', 'parts', 'tag')
    __array_priority__ = 100
    def __init__(self, fin, nan=False, pinf=False, ninf=False, kind=None, np=False, parts=None):
        self.fin = fin
        self.nan, self.pinf, self.ninf = nan, pinf, ninf
        self.kind = kind or ('i' if z3.is_int(fin) else 'f')
        self.np = np
        self.parts = parts
        self.tag = None

    # -- helpers
    def special(self):
        return not (self.nan is False and self.pinf is False and self.ninf is False)
    def isfin(self):
        return t_not(t_or(self.nan, self.pinf, self.ninf))
    def r(self):
        return real(self.fin)
    def truth(self):
        return t_or(self.nan, self.pinf, self.ninf, self.fin != 0)
    def __bool__(self):
        return ctx().branch(t_bool(self.truth()))
    def const(self):
        if self.special():
            return None
        s = z3.simplify(self.fin)
        return const_val(s)
    def __index__(self):
        c = self.const()
        if c is None and self.kind == 'i' and not self.special():
            # a remainder by a small constant: one path per value
            t = z3.simplify(self.fin)
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)) and 0 < t.arg(1).as_long() <= 4:
                m = t.arg(1).as_long()
                for v in range(m - 1):
                    if ctx().branch(t == v): return v
                return m - 1
        if c is None or self.kind != 'i':
            raise Unsupported('symbolic integer used where a concrete one is needed: %s' % self.fin)
        return int(c)
    def __int__(self):
        c = self.const()
        if c is None:
            raise Unsupported('int() of symbolic value in native code')
        return int(c)
    def __float__(self):
        c = self.const()
        if c is None:
            raise Unsupported('float() of symbolic value in native code')
        return float(c)
    def tofloat(self):
        return Num(self.r(), self.nan, self.pinf, self.ninf, 'f', self.np)
    def __repr__(self):
        return 'Num(%s%s)' % (self.fin, '' if not self.special() else ' nan=%s +inf=%s -inf=%s' % (self.nan, self.pinf, self.ninf))
    # numpy-scalar surface
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def size(self): return 1
    @property
    def T(self): return self
    def item(self): return self
    def copy(self): return self
    def astype(self, ty, **k):
        from .arr import dtype_kind
        kd = dtype_kind(ty)
        if kd == 'i':
            return to_int(self, np=True)
        if kd == 'b':
            return mkb(self.truth())
        n = self.tofloat()
        n.np = True
        return n
    def is_integer(self):
        return mkb(z3.IsInt(self.r()))
    def any(self, *a, **k): return mkb(self.truth())
    def all(self, *a, **k): return mkb(self.truth())

    # -- arithmetic
    def _bin(self, o, f):
        if hasattr(o, '_is_arr'):
            return NotImplemented
        o = lift(o)
        if o is None:
            return NotImplemented
        return f(self, o)
    def _rbin(self, o, f):
        if hasattr(o, '_is_arr'):
            return NotImplemented
        o = lift(o)
        if o is None:
            return NotImplemented
        return f(o, self)
    def __add__(self, o): return self._bin(o, n_add)
    def __radd__(self, o): return self._rbin(o, n_add)
    def __sub__(self, o): return self._bin(o, n_sub)
    def __rsub__(self, o): return self._rbin(o, n_sub)
    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return self._seqmul(o)
        return self._bin(o, n_mul)
    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return self._seqmul(o)
        return self._rbin(o, n_mul)
    def _seqmul(self, o):
        c = self.const()
        if c is not None:
            return o * int(c)
        from .arr import seq_repeat
        return seq_repeat(o, self)
    def __truediv__(self, o): return self._bin(o, n_div)
    def __rtruediv__(self, o): return self._rbin(o, n_div)
    def __floordiv__(self, o): return self._bin(o, n_floordiv)
    def __rfloordiv__(self, o): return self._rbin(o, n_floordiv)
    def __mod__(self, o): return self._bin(o, n_mod)
    def __rmod__(self, o):
        if isinstance(o, str):
            return 'fmt'
        return self._rbin(o, n_mod)
    def __divmod__(self, o): return (self // o, self % o)
    def __pow__(self, o): return self._bin(o, n_pow)
    def __rpow__(self, o): return self._rbin(o, n_pow)
    def __neg__(self):
        return Num(-self.fin, self.nan, self.ninf, self.pinf, self.kind, self.np)
    def __pos__(self): return self
    def __abs__(self):
        return Num(t_ite(self.fin >= 0, self.fin, -self.fin), self.nan, t_or(self.pinf, self.ninf), False, self.kind, self.np)
    def __round__(self, nd=None):
        if nd is not None:
            raise Unsupported('round with digits')
        return to_round(self)
    def __ceil__(self): return n_ceil(self, asint=True)
    def __floor__(self): return n_floor(self, asint=True)
    def __trunc__(self): return to_int(self)
    # -- comparisons
    def __lt__(self, o): return self._bin(o, n_lt)
    def __le__(self, o): return self._bin(o, n_le)
    def __gt__(self, o): return self._rbin(o, n_lt)
    def __ge__(self, o): return self._rbin(o, n_le)
    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._bin(o, n_eq)
    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r
    def __hash__(self):
        c = self.const()
        if c is None:
            raise Unsupported('hash of symbolic number')
        return hash(c)
    def __and__(self, o): return self._bin(o, n_bitand)
    __rand__ = __and__

def _pair(a, b):
    if a.kind == 'i' and b.kind == 'i':
        return a.fin, b.fin, 'i'
    return a.r(), b.r(), 'f'

def n_add(a, b):
    x, y, k = _pair(a, b)
    np_ = a.np or b.np
    if not a.special() and not b.special():
        return Num(x + y, kind=k, np=np_)
    nan = t_or(a.nan, b.nan, t_and(a.pinf, b.ninf), t_and(a.ninf, b.pinf))
    pinf = t_and(t_or(a.pinf, b.pinf), t_not(nan))
    ninf = t_and(t_or(a.ninf, b.ninf), t_not(nan))
    return Num(x + y, nan, pinf, ninf, k, np_)

def n_neg(a):
    return -a

def n_sub(a, b):
    return n_add(a, -b)

def n_mul(a, b):
    x, y, k = _pair(a, b)
    np_ = a.np or b.np
    if not a.special() and not b.special():
        ca, cb = const_val(x) if is_const(x) else None, const_val(y) if is_const(y) else None
        if ca == 0 or cb == 0:
            return Num(z3.IntVal(0) if k == 'i' else z3.RealVal(0), kind=k, np=np_)
        if ca == 1:
            return Num(y, kind=k, np=np_)
        if cb == 1:
            return Num(x, kind=k, np=np_)
        return Num(x * y, kind=k, np=np_)
    ainf, binf = t_or(a.pinf, a.ninf), t_or(b.pinf, b.ninf)
    azero = t_and(a.isfin(), x == 0)
    bzero = t_and(b.isfin(), y == 0)
    nan = t_or(a.nan, b.nan, t_and(ainf, bzero), t_and(binf, azero))
    apos = t_or(a.pinf, t_and(a.isfin(), x > 0))
    bpos = t_or(b.pinf, t_and(b.isfin(), y > 0))
    aneg = t_or(a.ninf, t_and(a.isfin(), x < 0))
    bneg = t_or(b.ninf, t_and(b.isfin(), y < 0))
    inf = t_and(t_or(ainf, binf), t_not(nan))
    pinf = t_and(inf, t_or(t_and(apos, bpos), t_and(aneg, bneg)))
    ninf = t_and(inf, t_or(t_and(apos, bneg), t_and(aneg, bpos)))
    return Num(x * y, nan, pinf, ninf, k, np_)

def n_div(a, b):
    x, y = a.r(), b.r()
    np_ = a.np or b.np
    cy = const_val(y) if is_const(y) else None
    if not b.special() and cy is not None and cy != 0:
        if cy == 1:
            return Num(x, a.nan, a.pinf, a.ninf, 'f', np_)
        q = x / y
        if not a.special():
            return Num(q, kind='f', np=np_)
        pos = cy > 0
        return Num(q, a.nan, a.pinf if pos else a.ninf, a.ninf if pos else a.pinf, 'f', np_)
    if not np_:
        # python scalar division
        if ctx().branch(t_bool(t_and(b.isfin(), y == 0))):
            raise ZeroDivisionError('division by zero')
        yz = False
    else:
        yz = t_and(b.isfin(), simp(y == 0))
        if yz is not False and not isinstance(yz, bool):
            if provably_not(yz):
                yz = False
    q = n_quot(x, y)
    if yz is False and not a.special() and not b.special():
        return Num(q, kind='f', np=np_)
    xz = t_and(a.isfin(), x == 0)
    ainf, binf = t_or(a.pinf, a.ninf), t_or(b.pinf, b.ninf)
    nan = t_or(a.nan, b.nan, t_and(xz, yz), t_and(ainf, binf))
    # the sign of a zero divisor is not modelled: sign of x/0 is arbitrary
    if yz is not False:
        key = ('zsign', y.get_id())
        if key not in MEMO:
            MEMO[key] = (fresh_bool('zsign'), y)
        s = MEMO[key][0]
        ypos, yneg = t_or(b.pinf, t_and(b.isfin(), y > 0), t_and(yz, s)), t_or(b.ninf, t_and(b.isfin(), y < 0), t_and(yz, t_not(s)))
    else:
        ypos, yneg = t_or(b.pinf, t_and(b.isfin(), y > 0)), t_or(b.ninf, t_and(b.isfin(), y < 0))
    xpos, xneg = t_or(a.pinf, t_and(a.isfin(), x > 0)), t_or(a.ninf, t_and(a.isfin(), x < 0))
    inf = t_and(t_or(ainf, yz), t_not(nan))
    pinf = t_and(inf, t_or(t_and(xpos, ypos), t_and(xneg, yneg)))
    ninf = t_and(inf, t_or(t_and(xpos, yneg), t_and(xneg, ypos)))
    fin = t_ite(t_bool(binf), z3.RealVal(0), q) if binf is not False else q
    return Num(fin, nan, pinf, ninf, 'f', np_)

def n_quot(x, y):
    """fresh quotient symbol with q*y == x when y != 0 (memoised on the operands)"""
    key = ('quot', x.get_id(), y.get_id())
    if key not in MEMO:
        q = fresh_real('q')
        REG.add_static(str(q), z3.Implies(y != 0, q * y == x))
        MEMO[key] = (q, x, y)
    return MEMO[key][0]

def provably_not(t):
    from . import prover
    if not STACK.items:
        return False
    c = ctx()
    nt = t_not(t)
    if not isinstance(nt, bool) and nt.get_id() in c.pcset:
        return True
    return not prover.feasible(c.full_pc() + index_ranges(t) + [t])

RANGES = []     # (index, dims) of the array elements under evaluation

def index_ranges(t):
    """range conditions of the index constants in t: a value at an index only matters for indices in range"""
    if isinstance(t, bool): return []
    seen, st, out = set(), [t], []
    if RANGES and RANGES[-1][1] is not None:
        from .arr import inrange
        for i, d in zip(*RANGES[-1]):
            r = inrange(i, d)
            if not isinstance(r, bool): out.append(r)
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.num_args() == 0:
            r = REG.skrange.get(str(x)) if z3.is_int(x) and not z3.is_int_value(x) else None
            if r is not None: out.append(r)
        else:
            st.extend(x.children())
    return out

def int_divmod(x, y):
    """floor div/mod of Int terms, y != 0"""
    x, y = simpi(x), simpi(y)
    if isinstance(x, int) and isinstance(y, int):
        return x // y, x % y
    if isinstance(y, int) and y > 0:
        return intt(x) / y, intt(x) % y
    key = ('divmod', intt(x).get_id(), intt(y).get_id())
    if key not in MEMO:
        q, r = fresh_int('dq'), fresh_int('dr')
        x_, y_ = intt(x), intt(y)
        ax = [x_ == q * y_ + r,
              z3.Implies(y_ > 0, z3.And(r >= 0, r < y_)),
              z3.Implies(y_ < 0, z3.And(r <= 0, r > y_))]
        fl = FLAT.get(x_.get_id())
        if fl is not None:
            i, s, j, _ = fl
            ax.append(z3.Implies(z3.And(s == y_, j >= 0, j < s), z3.And(q == i, r == j)))
        REG.add_static(str(q), *ax)
        REG.add_static(str(r), *ax)
        MEMO[key] = (q, r, x_, y_)
    return MEMO[key][0], MEMO[key][1]

FLAT = {}   # ast id of i*s+j  ->  (i, s, j, term)

def flat_index(i, s, j):
    t = simpi(intt(i) * intt(s) + intt(j))
    if not isinstance(t, int):
        FLAT[t.get_id()] = (intt(i), intt(s), intt(j), t)
    return t

def n_floordiv(a, b):
    if a.kind == 'i' and b.kind == 'i':
        if ctx().branch(b.fin == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        q, _ = int_divmod(a.fin, b.fin)
        return Num(intt(q), kind='i', np=a.np or b.np)
    d = n_div(a, b)
    return n_floor(d)

def n_mod(a, b):
    if a.kind == 'i' and b.kind == 'i':
        if ctx().branch(b.fin == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        _, r = int_divmod(a.fin, b.fin)
        return Num(intt(r), kind='i', np=a.np or b.np)
    d = n_floor(n_div(a, b))
    return n_sub(a, n_mul(d, b))

def n_bitand(a, b):
    # with 2**k - 1 the bitwise and is the remainder modulo 2**k (for negative numbers too)
    if a.kind == 'i' and b.kind == 'i':
        for x, y in ((a, b), (b, a)):
            c = y.const()
            if c is not None and c >= 0 and (int(c) & (int(c) + 1)) == 0:
                return Num(z3.simplify(intt(x.fin) % (int(c) + 1)), kind='i', np=a.np or b.np)
    raise Unsupported('bitwise and on numbers')

# power -------------------------------------------------------------------------------------
POW = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())

def n_pow(a, b):
    cb = b.const()
    np_ = a.np or b.np
    if cb is not None:
        if cb == Fraction(1, 2):
            return n_sqrt(a, np_)
        if cb.denominator == 1 if isinstance(cb, Fraction) else True:
            n = int(cb)
            if 0 <= n <= 8 and not (a.const() is not None and a.kind == 'i' and False):
                if n == 0:
                    return Num(z3.IntVal(1) if (a.kind, b.kind) == ('i', 'i') else z3.RealVal(1), kind='i' if (a.kind, b.kind) == ('i', 'i') else 'f', np=np_)
                r = a
                for _ in range(n - 1):
                    r = n_mul(r, a)
                if b.kind == 'f':
                    r = r.tofloat()
                return r
            if -4 <= n < 0:
                return n_div(lift(1.0), n_pow(a, lift(-n)))
    if a.special() or b.special():
        raise Unsupported('power of special value')
    ca = a.const()
    if ca is not None and cb is not None and (b.kind == 'i' or Fraction(cb).denominator == 1):
        v = Fraction(ca) ** int(cb)
        return Num(z3.RealVal(v) if 'f' in (a.kind, b.kind) or cb < 0 else z3.IntVal(int(v)), kind='f' if 'f' in (a.kind, b.kind) or cb < 0 else 'i', np=np_)
    t = POW(a.r(), b.r())
    nan = False
    pinf = False
    if not np_:
        bad = simp(t_and(a.r() == 0, b.r() < 0))
        if bad is not False and ctx().branch(t_bool(bad)):
            raise ZeroDivisionError('0.0 cannot be raised to a negative power')
    else:
        bad = simp(t_and(a.r() == 0, b.r() < 0))
        if not isinstance(bad, bool) and not provably_not(bad):
            pinf = bad
    bad = simp(t_and(a.r() < 0, z3.Not(z3.IsInt(b.r()))))
    if not isinstance(bad, bool):
        if provably_not(bad):
            bad = False
    if bad is not False:
        if np_:
            nan = bad
        else:
            if ctx().branch(t_bool(bad)):
                raise Unsupported('complex power')
    return Num(t, nan=nan, pinf=pinf, kind='f', np=np_)

SQRT = z3.Function('sqrt', z3.RealSort(), z3.RealSort())
def n_sqrt(a, np_=True):
    x = a.r()
    c = a.const()
    if c is not None and c >= 0:
        from math import isqrt
        f = Fraction(c)
        n, d = isqrt(f.numerator), isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            return Num(z3.RealVal(Fraction(n, d)), kind='f', np=np_)
    neg = simp(t_and(a.isfin(), x < 0))
    if not isinstance(neg, bool) and provably_not(neg):
        neg = False
    if neg is not False and not np_:
        if ctx().branch(t_bool(neg)):
            raise ValueError('math domain error')
        neg = False
    return Num(SQRT(x), t_or(a.nan, a.ninf, neg), a.pinf, False, 'f', np_)

LOG = z3.Function('log', z3.RealSort(), z3.RealSort())
LOG2 = z3.Function('log2', z3.RealSort(), z3.RealSort())
EXP = z3.Function('exp', z3.RealSort(), z3.RealSort())

def n_log(a, np_=True, base=None):
    x = a.r()
    f = LOG if base is None else LOG2
    neg = simp(t_and(a.isfin(), x < 0))
    zero = simp(t_and(a.isfin(), x == 0))
    if not isinstance(neg, bool) and provably_not(neg):
        neg = False
    if not isinstance(zero, bool) and provably_not(zero):
        zero = False
    if not np_ and (neg is not False or zero is not False):
        if ctx().branch(t_bool(t_or(neg, zero))):
            raise ValueError('math domain error')
        neg = zero = False
    return Num(f(x), t_or(a.nan, a.ninf, neg), a.pinf, zero, 'f', np_)

def n_exp(a, np_=True):
    return Num(EXP(a.r()) if a.ninf is False else t_ite(t_bool(a.ninf), z3.RealVal(0), EXP(a.r())), a.nan, a.pinf, False, 'f', np_)

def n_floor(a, asint=False):
    if a.kind == 'i':
        return a
    f = z3.ToInt(a.fin)
    if asint:
        return to_int(a, mode='floor')
    return Num(z3.ToReal(f), a.nan, a.pinf, a.ninf, 'f', a.np)

def n_ceil(a, asint=False):
    if a.kind == 'i':
        return a
    if asint:
        return to_int(a, mode='ceil')
    f = -z3.ToInt(-a.fin)
    return Num(z3.ToReal(f), a.nan, a.pinf, a.ninf, 'f', a.np)

def to_int(a, np=False, mode='trunc'):
    if a.kind == 'i':
        r = Num(a.fin, kind='i', np=np or a.np)
        return r
    if a.special():
        if np:
            raise Unsupported('integer cast of nan/inf')
        if ctx().branch(t_bool(t_not(a.isfin()))):
            raise ValueError('cannot convert float NaN/infinity to integer')
    if z3.is_to_real(a.fin):
        return Num(a.fin.arg(0), kind='i', np=np)
    c = a.const()
    if mode == 'floor':
        t = z3.ToInt(a.fin)
    elif mode == 'ceil':
        t = -z3.ToInt(-a.fin)
    else:
        t = z3.If(a.fin >= 0, z3.ToInt(a.fin), -z3.ToInt(-a.fin))
    return Num(simp(t) if c is not None else t, kind='i', np=np)

def to_round(a):
    if a.kind == 'i':
        return a
    # round half to even: result within 1/2
    k = fresh_int('round')
    REG.add_static(str(k), z3.And(z3.ToReal(k) - a.fin <= z3.RealVal('1/2'), a.fin - z3.ToReal(k) <= z3.RealVal('1/2')))
    return Num(k, kind='i')

# comparisons --------------------------------------------------------------------------------
def n_lt(a, b):
    x, y, _ = _pair(a, b)
    if not a.special() and not b.special():
        return mkb(simp_if_const(x < y))
    f = t_and(a.isfin(), b.isfin(), x < y)
    return mkb(t_and(t_not(a.nan), t_not(b.nan), t_or(f, t_and(a.ninf, t_not(b.ninf)), t_and(b.pinf, t_not(a.pinf)))))

def n_le(a, b):
    x, y, _ = _pair(a, b)
    if not a.special() and not b.special():
        return mkb(simp_if_const(x <= y))
    f = t_and(a.isfin(), b.isfin(), x <= y)
    return mkb(t_and(t_not(a.nan), t_not(b.nan), t_or(f, a.ninf, b.pinf)))

def n_eq(a, b):
    x, y, _ = _pair(a, b)
    if not a.special() and not b.special():
        return mkb(simp_if_const(x == y))
    f = t_and(a.isfin(), b.isfin(), x == y)
    return mkb(t_and(t_not(a.nan), t_not(b.nan), t_or(f, t_and(a.pinf, b.pinf), t_and(a.ninf, b.ninf))))

def simp_if_const(t):
    if isinstance(t, bool):
        return t
    ch = t.children()
    if len(ch) == 2 and (ch[0].eq(ch[1]) or (is_const(ch[0]) and is_const(ch[1]))):
        return simp(t)
    return t

def n_ite(c, a, b):
    """select between numbers on z3 Bool c"""
    if c is True:
        return a
    if c is False:
        return b
    a, b = lift(a), lift(b)
    x, y, k = _pair(a, b)
    if x.eq(y) and not a.special() and not b.special():
        return Num(x, kind=k, np=a.np or b.np)
    return Num(z3.If(c, x, y), t_iteb(c, a.nan, b.nan), t_iteb(c, a.pinf, b.pinf), t_iteb(c, a.ninf, b.ninf), k, a.np or b.np)

def n_min(a, b, np=False):
    """np.minimum semantics (nan propagates) when np, python min otherwise"""
    a, b = lift(a), lift(b)
    c = as_t(n_le(a, b))
    r = n_ite(t_bool(c) if not isinstance(c, bool) else c, a, b)
    nan = t_or(a.nan, b.nan)
    if nan is not False:
        r = Num(r.fin, nan, t_and(r.pinf, t_not(nan)), t_and(r.ninf, t_not(nan)), r.kind, r.np)
    return r

def n_max(a, b, np=False):
    a, b = lift(a), lift(b)
    c = as_t(n_le(b, a))
    r = n_ite(c, a, b)
    nan = t_or(a.nan, b.nan)
    if nan is not False:
        r = Num(r.fin, nan, t_and(r.pinf, t_not(nan)), t_and(r.ninf, t_not(nan)), r.kind, r.np)
    return r
