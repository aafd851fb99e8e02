"""Run-time of the translated modules: builtins, object journaling, loops, contracts, obligations."""
import builtins as _b
import itertools, time, types, sys, os, enum, hashlib
import z3
from . import sym, prover, source, nps
from . import arr as A
from .sym import *
from .arr import *
from .arr import _n
from .loops import LoopMixin

class _Unbound:
    def __repr__(self): return 'UNBOUND'
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise UnboundLocalError('local variable referenced before assignment')
    def _err(self, *a):
        raise UnboundLocalError('local variable referenced before assignment')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __bool__ = __call__ = __getitem__ = __setitem__ = __iter__ = __len__ = __lt__ = __le__ = __gt__ = __ge__ = _err
UNBOUND = _Unbound()
MISSING = object()

class JDict:
    """a Python dict with journaled mutation; keys concrete, or compared by the solver"""
    def __init__(self, items=()):
        self.items_ = list(items)
        if STACK.items and STACK.top.engine is not None:
            STACK.top.engine.register_obj(self)
    def _set(self, items):
        cell = [items]
        def swap(self=self, cell=cell):
            cur = self.items_
            self.items_ = cell[0]
            cell[0] = cur
        swap()
        if STACK.items:
            STACK.top.log_undo(swap, self, ('dict',))
    def _find(self, k):
        for i, (kk, _) in enumerate(self.items_):
            if kk is k:
                return i
            c = as_t(A.val_eq(kk, k)) if not (isinstance(kk, str) or isinstance(k, str)) else kk == k
            if c is True or (c is not False and decide(t_bool(c))):
                return i
        return None
    def __setitem__(self, k, v):
        i = self._find(k)
        l = list(self.items_)
        if i is None:
            l.append((k, v))
        else:
            l[i] = (l[i][0], v)
        self._set(l)
    def __getitem__(self, k):
        i = self._find(k)
        if i is None:
            raise KeyError(k)
        return self.items_[i][1]
    def get(self, k, d=None):
        i = self._find(k)
        return d if i is None else self.items_[i][1]
    def pop(self, k, *d):
        i = self._find(k)
        if i is None:
            if d: return d[0]
            raise KeyError(k)
        v = self.items_[i][1]
        self._set(self.items_[:i] + self.items_[i + 1:])
        return v
    def __delitem__(self, k): self.pop(k)
    def __contains__(self, k): return self._find(k) is not None
    def keys(self): return [k for k, _ in self.items_]
    def values(self): return [v for _, v in self.items_]
    def items(self): return [(k, v) for k, v in self.items_]
    def update(self, o=(), **kw):
        for k, v in (o.items() if hasattr(o, 'items') else o):
            self[k] = v
        for k, v in kw.items():
            self[k] = v
    def setdefault(self, k, d=None):
        if k not in self: self[k] = d
        return self[k]
    def clear(self): self._set([])
    def copy(self): return JDict(self.items_)
    def __iter__(self): return iter(self.keys())
    def __len__(self): return len(self.items_)
    def __bool__(self): return bool(self.items_)

class ListIter:
    """iterator over a concrete list (for next())"""
    def __init__(self, l): self.l, self.i = list(l), 0
    def __iter__(self): return self
    def __next__(self):
        if self.i >= len(self.l):
            raise StopIteration
        self.i += 1
        return self.l[self.i - 1]

def is_symseq(x):
    if isinstance(x, JList):
        return x.items is None
    if isinstance(x, Seq):
        return not isinstance(x.n, int) or x.n > SMALL
    if isinstance(x, Arr):
        return not isinstance(x.shape_[0], int) if x.shape_ else False
    return hasattr(x, '_as_seq')

def native(x):
    """concrete python list of a concrete-length iterable"""
    if isinstance(x, JDict):
        return x.keys()
    return list(x)

# --------------------------------------------------------------------------- builtins
def b_len(x):
    if hasattr(x, 'sym_len'):
        return x.sym_len()
    return _b.len(x)

def b_range(*a):
    ns = [lift(x) for x in a]
    if any(n is None for n in ns):
        raise TypeError('range argument')
    if any(n.kind != 'i' for n in ns):
        raise TypeError("'float' object cannot be interpreted as an integer")
    cs = [n.const() for n in ns]
    if all(c is not None for c in cs):
        return range(*[int(c) for c in cs])
    lo, hi, st = (lift(0), ns[0], lift(1)) if len(ns) == 1 else (ns[0], ns[1], lift(1)) if len(ns) == 2 else ns
    c = st.const()
    if c is None or c == 0:
        raise Unsupported('range step')
    c = int(c)
    num = simpi(hi.fin - lo.fin) if c > 0 else simpi(lo.fin - hi.fin)
    if abs(c) != 1:
        num = simpi((intt(num) + (abs(c) - 1)) / abs(c))
    if c == 1 and lo.const() == 0 and isinstance(a[-1], Num) and a[-1].parts:
        d = a[-1]
    else:
        d = A.dim_max0(num)
    l0 = simpi(lo.fin)
    def at(k):
        t = A.addk(l0, k, c)
        return t if isinstance(t, int) else Num(t, kind='i')
    s = Seq(d, at, ints=True)
    return s

def b_zip(*xs, strict=False):
    if not any(is_symseq(x) for x in xs):
        return [tuple(t) for t in zip(*[native(x) for x in xs])]
    ss = [as_seq(x) for x in xs]
    n = ss[0].n
    for s in ss[1:]:
        if domkey(s.n) == domkey(n):
            continue
        t = simp(intt(dterm(s.n)) < intt(dterm(n)))
        if decide(t_bool(t)):
            n = s.n
    return Seq(n, lambda k: tuple(s.at(iterm(k)) for s in ss))

def b_enumerate(x, start=0):
    if not is_symseq(x):
        return [(start + i, v) for i, v in enumerate(native(x))]
    s = as_seq(x)
    return Seq(s.n, lambda k: (Num(intt(iterm(k)), kind='i') + start, s.at(k)))

def b_map(f, *xs):
    if not any(is_symseq(x) for x in xs):
        return [f(*t) for t in zip(*[native(x) for x in xs])]
    z = b_zip(*xs)
    rt = STACK.top.engine.rt
    acc = rt.newlist()
    def body(it):
        acc.append(f(*it))
        return ('next',)
    rt.for_(z, body, lambda: {}, lambda n, v: None, (), 'map')
    return acc

def b_filter(f, x):
    if not is_symseq(x):
        return [v for v in native(x) if (f(v) if f is not None else v)]
    raise Unsupported('filter over a symbolic sequence')

def b_list(x=()):
    if isinstance(x, JList):
        return JList(x)
    if is_symseq(x):
        return JList(as_seq(x))
    return JList(native(x))

def b_tuple(x=()):
    if is_symseq(x):
        s = as_seq(x)
        return Seq(s.n, s.at, tup=True)
    return tuple(native(x))

def b_sum(x, start=0):
    if is_symseq(x):
        a = asarr(x)
        if a.ndim != 1:
            raise Unsupported('sum of arrays')
        return lift(start) + A.red_sum(a, None)
    r = start
    for v in native(x):
        r = r + v
    return r

def _minmax(op, a, key, default):
    if len(a) == 1:
        if is_symseq(a[0]):
            if key is not None:
                raise Unsupported('min/max with key')
            return A.red_minmax(asarr(a[0]), None, op)
        a = native(a[0])
        if not a:
            if default is not MISSING:
                return default
            raise ValueError('min() arg is an empty sequence')
    r = a[0]
    for v in a[1:]:
        if key is None and numlike(v) and numlike(r):
            x, y = lift(r), lift(v)
            c = as_t(n_lt(y, x) if op == 'min' else n_lt(x, y))
            r = n_ite(c, y, x)
        else:
            kv, kr = (key(v), key(r)) if key else (v, r)
            if (kv < kr) if op == 'min' else (kr < kv):
                r = v
    return r
def b_min(*a, key=None, default=MISSING): return _minmax('min', a, key, default)
def b_max(*a, key=None, default=MISSING): return _minmax('max', a, key, default)

def b_any(x):
    if is_symseq(x):
        s = as_seq(x)
        return mkb(A.exists_t([s.n], lambda k: as_t(s.at(k))))
    r = False
    for v in native(x):
        t = as_t(v)
        if t is True: return True
        r = t_or(r, t)
    return mkb(r)
def b_all(x):
    if is_symseq(x):
        s = as_seq(x)
        return mkb(A.forall_t([s.n], lambda k: as_t(s.at(k))))
    r = True
    for v in native(x):
        t = as_t(v)
        if t is False: return False
        r = t_and(r, t)
    return mkb(r)

def b_abs(x): return abs(x)

class _IntMeta(type):
    def __instancecheck__(cls, x): return vc_isinstance(x, int)
    def __call__(cls, x=0, base=None):
        if isinstance(x, (int, float)) and not isinstance(x, bool):
            return int(x)
        if isinstance(x, str):
            return int(x) if base is None else int(x, base)
        if hasattr(x, '_as_int'):
            return x._as_int()
        n = lift(x)
        if n is None:
            raise TypeError('int()')
        r = sym.to_int(Num(n.fin, n.nan, n.pinf, n.ninf, n.kind, False))
        c = r.const()
        return int(c) if c is not None else r
class b_int(metaclass=_IntMeta):
    _vc_dtype = 'i'
class _FloatMeta(type):
    def __instancecheck__(cls, x): return vc_isinstance(x, float)
    def __call__(cls, x=0.0):
        if isinstance(x, str):
            return float(x)
        if isinstance(x, (int, float)):
            return float(x)
        n = lift(x)
        if n is None:
            raise TypeError('float()')
        r = n.tofloat()
        r.np = False
        return r
class b_float(metaclass=_FloatMeta):
    _vc_dtype = 'f'
class _BoolMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (bool, B))
    def __call__(cls, x=False):
        if isinstance(x, (bool, B)): return x
        if numlike(x) or isinstance(x, Arr): return mkb(as_t(x))
        return bool(x)
class b_bool(metaclass=_BoolMeta):
    _vc_dtype = 'b'

def b_reversed(x):
    if is_symseq(x):
        s = as_seq(x)
        return Seq(s.n, lambda k: s.at(A.sub_ix(s.n, k)))
    return list(reversed(native(x)))

def b_sorted(x, key=None, reverse=False):
    if is_symseq(x):
        raise Unsupported('sorted of symbolic sequence')
    l = native(x)
    out = []
    for v in l:                      # insertion sort, comparisons decided by path splits
        kv = key(v) if key else v
        i = len(out)
        while i > 0 and ((kv < out[i - 1][0]) if not reverse else (out[i - 1][0] < kv)):
            i -= 1
        out.insert(i, (kv, v))
    return JList([v for _, v in out])

def vc_isinstance(x, ty):
    if isinstance(ty, tuple):
        return any(vc_isinstance(x, t) for t in ty)
    if ty is b_int or ty is int:
        if isinstance(x, Num):
            return x.kind == 'i' and not x.np
        return isinstance(x, (int,))
    if ty is b_float or ty is float:
        if isinstance(x, Num):
            return x.kind == 'f'
        return isinstance(x, float)
    if ty is b_bool or ty is bool:
        return isinstance(x, bool) or (isinstance(x, B))
    if ty is list or ty is b_list:
        return isinstance(x, (list, JList))
    if ty is tuple or ty is b_tuple:
        return isinstance(x, tuple) or (isinstance(x, Seq) and x.tup)
    if ty is dict:
        return isinstance(x, (dict, JDict))
    if ty is Arr:
        return isinstance(x, Arr)
    if isinstance(ty, DType):
        return isinstance(x, Num) and x.np and x.kind == ty.k
    if isinstance(ty, str):
        if ty == 'np.integer':
            return isinstance(x, Num) and x.kind == 'i' and x.np
        return isinstance(x, Num) and x.kind == 'f' and x.np
    return isinstance(x, ty)

def b_next(it, *d):
    if hasattr(it, '__next__'):
        if d:
            return next(it, d[0])
        return it.__next__()
    if isinstance(it, (list, JList)):      # generator expression materialised as a list
        if not it:
            if d: return d[0]
            raise StopIteration
        return it[0]
    raise Unsupported('next()')
def b_iter(x):
    if is_symseq(x): return x
    return ListIter(native(x))
def b_round(x, n=None):
    if isinstance(x, Num):
        if n is None:
            return x.__round__()
        raise Unsupported('round with digits')
    return round(x) if n is None else round(x, n)
def b_str(x=''): return x if isinstance(x, str) else 'str'
def b_set(x=()):
    if is_symseq(x): raise Unsupported('set of symbolic sequence')
    return VSet(native(x))
class VSet:
    def __init__(self, l=()):
        self.l = []
        for v in l: self.add(v)
    def add(self, v):
        if not any(bool(mkb(as_t(A.val_eq(v, w)))) for w in self.l):
            self.l.append(v)
    def __contains__(self, v): return any(bool(mkb(as_t(A.val_eq(v, w)))) for w in self.l)
    def __iter__(self): return iter(self.l)
    def __len__(self): return len(self.l)
def b_dict(*a, **k):
    d = JDict()
    if a: d.update(a[0] if not isinstance(a[0], (list, tuple, Seq)) else native(a[0]))
    d.update(**k)
    return d
def b_pow(a, b, m=None):
    if m is not None: raise Unsupported('pow mod')
    return a ** b
def b_open(*a, **k): raise Unsupported('open()')
def b_id(x): return id(x)
def b_hash(x): raise Unsupported('hash()')

def make_builtins(rt, imp):
    d = dict(vars(_b))
    d.update(len=b_len, range=b_range, zip=b_zip, enumerate=b_enumerate, map=b_map, filter=b_filter, list=b_list, tuple=b_tuple,
             sum=b_sum, min=b_min, max=b_max, any=b_any, all=b_all, abs=b_abs, int=b_int, float=b_float, bool=b_bool,
             reversed=b_reversed, sorted=b_sorted, isinstance=vc_isinstance, print=lambda *a, **k: None, next=b_next, iter=b_iter,
             round=b_round, str=b_str, set=b_set, dict=b_dict, pow=b_pow, open=b_open, hash=b_hash)
    d['__import__'] = imp
    return d

# --------------------------------------------------------------------------- run-time
class RT(LoopMixin):
    UNBOUND = UNBOUND
    def __init__(self, eng):
        self.eng = eng
    def list_(self, l): return JList(l)
    def fmt_(self, *parts): return FStr(parts)
    def contracted(self, name, real): return self.eng.contracted[name](real)
    def star_(self, tup, *parts):
        """display with starred parts: [*a, b] or (*a, b)"""
        l = JList()
        for star, x in parts:
            if star: l.extend(x if is_symseq(x) else native(x))
            else: l.append(x)
        return b_tuple(l) if tup else l
    def newlist(self): return JList()
    def dict_(self, d): return JDict(d.items())
    def dict_of(self, pairs):
        d = JDict()
        if is_symseq(pairs):
            raise Unsupported('dict over a symbolic sequence')
        for k, v in native(pairs): d[k] = v
        return d
    def gen(self, l): return l
    def is_return(self, r): return r is not None and r[0] == 'return'
    def no_break(self, r): return r is None

class FStr(str):
    """a formatted string: opaque text that remembers the values it was built from"""
    def __new__(cls, parts):
        s = str.__new__(cls, 'fmt')
        s.parts = []
        for p in parts: s.parts.extend(p.parts if isinstance(p, FStr) else [p])
        return s
    def __add__(self, o): return FStr([self, o])
    def __radd__(self, o): return FStr([o, self])
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    def __hash__(self): return id(self)

class Opaque:
    """an import the contracts give no semantics to: importable, unusable"""
    def __init__(self, name): self.__dict__['_name'] = name
    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        return Opaque(self._name + '.' + n)
    def __call__(self, *a, **k):
        raise Unsupported('%s has no contract' % self._name)
    def __iter__(self): raise Unsupported('%s has no contract' % self._name)
    def __bool__(self): raise Unsupported('%s has no contract' % self._name)
    def __mro_entries__(self, bases): return (object,)

class Engine:
    def __init__(self):
        self.rt = RT(self)
        self.modules = {}
        self.serial = itertools.count(1)
        self.quiet = 0
        self.obligations = []
        self.stubs = {}
        self.override = {}      # repository file -> {function: contract stub}
        self.hashes = {}
        self.callsink = None
        self.loop_contracts = []
        self.functions = []
        self.keepobj = []
        self.contracted = {}
        self.carry = []         # objects with a linear ghost counter (see loops.learn_carry)

    def depth_guard(self, src, j):
        """stop f(f(..)) index towers in recurrence instantiation"""
        return not isinstance(j, int) and j.sexpr().count('+ ') > 2

    def repo_module(self, name):
        """path of the repository file an import refers to (its functions are inlined unless overridden by a contract)"""
        for rel in (name.replace('.', '/') + '.py', 'nonasymptotic/' + name + '.py'):
            if os.path.isfile(os.path.join(source.REPO, rel)):
                return rel

    def register_obj(self, o):
        o._oid = next(self.serial)

    # ---- loading
    def load(self, rel, stubs=None, override=None, script=False, env=None):
        """translate and execute module `rel` with stubbed imports"""
        code, src, tree = source.translate(rel, script)
        self.hashes[rel] = hashlib.sha256(src.encode()).hexdigest()[:16]
        st = dict(self.stubs)
        st.update(stubs or {})
        npm = nps.module()
        import abc, math as _m
        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if name in st:
                m = st[name]
                if isinstance(m, BaseException): raise m
                return m if fromlist or '.' not in name else _Pkg(name, m)
            if name == 'numpy':
                return npm
            if name in ('abc', 'enum', 'dataclasses', 'typing', 'functools', 'collections', 'contextlib', 'warnings', 'operator', 'string'):
                return __import__(name, globals, locals, fromlist, level)
            if name == 'copy':
                return CopyMod
            if name == 'math':
                return MathMod
            if name == 'itertools':
                return ItertoolsMod
            if name == 'time':
                return Opaque('time')
            r = self.repo_module(name)
            if r is not None:
                if r not in self.modules:
                    self.modules[r] = self.load(r, stubs)
                leaf = self.modules[r]
                return leaf if fromlist else _Pkg(name, leaf) if '.' in name else leaf
            return Opaque(name)
        ns = {'__name__': rel.replace('/', '.')[:-3], '__file__': rel, 'vc__': self.rt}
        ns['__builtins__'] = make_builtins(self.rt, imp)
        if script: ns['__name__'] = '__main__'
        ns.update(env or {})
        exec(code, ns)
        for v in list(ns.values()):
            if isinstance(v, type) and v.__module__ == ns['__name__'] and not issubclass(v, enum.Enum) and not issubclass(v, BaseException):
                journal_class(v)
        ov = dict(self.override.get(rel, {}))
        ov.update(override or {})
        for k, v in ov.items():
            if k not in ns:
                raise Unsupported('%s is gone from %s' % (k, rel))
            ns[k] = v
        m = types.SimpleNamespace(**{k: v for k, v in ns.items() if not k.startswith('__')})
        m._ns = ns
        return m

class _Pkg:
    def __init__(self, name, leaf):
        parts = name.split('.')[1:]
        o = leaf
        for p in reversed(parts):
            n = types.SimpleNamespace()
            setattr(n, p, o)
            o = n
        self.__dict__.update(o.__dict__)

def journal_class(cls):
    def __setattr__(self, n, v):
        d = self.__dict__
        old = d.get(n, MISSING)
        # properties / slots keep their own behaviour
        cattr = getattr(type(self), n, None)
        if isinstance(cattr, property):
            return object.__setattr__(self, n, v)
        d[n] = v
        if STACK.items:
            if '_oid' not in d and STACK.top.engine is not None:
                d['_oid'] = next(STACK.top.engine.serial)
            cell = [old]
            def swap(d=d, n=n, cell=cell):
                cur = d.get(n, MISSING)
                if cell[0] is MISSING:
                    d.pop(n, None)
                else:
                    d[n] = cell[0]
                cell[0] = cur
            STACK.top.log_undo(swap, self, ('attr', n))
    cls.__setattr__ = __setattr__

class CopyMod:
    @staticmethod
    def deepcopy(x, memo=None):
        if isinstance(x, (JList,)):
            if x.items is not None:
                return JList([CopyMod.deepcopy(v) for v in x.items])
            return JList(x)
        if isinstance(x, list): return JList([CopyMod.deepcopy(v) for v in x])
        if isinstance(x, tuple): return tuple(CopyMod.deepcopy(v) for v in x)
        if isinstance(x, JDict): return JDict([(k, CopyMod.deepcopy(v)) for k, v in x.items_])
        if isinstance(x, Arr): return x.copy()
        if isinstance(x, (Seq, Num, B, int, float, str, bool, type(None))): return x
        if hasattr(x, '__deepcopy__'): return x.__deepcopy__({})
        raise Unsupported('deepcopy of %r' % type(x))
    @staticmethod
    def copy(x):
        if isinstance(x, list): return JList(x)
        if hasattr(x, 'copy'): return x.copy()
        return x

class MathMod:
    pi = nps.NPModule.pi
    inf, nan = float('inf'), float('nan')
    e = 2.718281828459045
    @staticmethod
    def _s(x):
        n = lift(x) if not isinstance(x, Arr) else lift(x._scalar())
        if n is None: raise TypeError('must be real number')
        return Num(n.fin, n.nan, n.pinf, n.ninf, n.kind, False)
    @staticmethod
    def sqrt(x): return n_sqrt(MathMod._s(x), False)
    @staticmethod
    def log(x, base=None):
        if base is not None:
            if lift(base).const() == 2: return MathMod.log2(x)
            return MathMod.log(x) / MathMod.log(base)
        return n_log(MathMod._s(x), False)
    @staticmethod
    def log2(x): return n_log(MathMod._s(x), False, base=2)
    @staticmethod
    def exp(x): return n_exp(MathMod._s(x), False)
    @staticmethod
    def floor(x): return n_floor(MathMod._s(x), asint=True)
    @staticmethod
    def ceil(x): return n_ceil(MathMod._s(x), asint=True)
    @staticmethod
    def fabs(x): return abs(MathMod._s(x).tofloat())
    @staticmethod
    def pow(a, b):
        a, b = MathMod._s(a).tofloat(), MathMod._s(b).tofloat()
        if decide(t_bool(t_and(a.r() < 0, z3.Not(z3.IsInt(b.r()))))):
            raise ValueError('math domain error')
        return a ** b
    @staticmethod
    def isnan(x): return mkb(MathMod._s(x).nan)
    @staticmethod
    def isinf(x): return mkb(t_or(MathMod._s(x).pinf, MathMod._s(x).ninf))
    @staticmethod
    def isfinite(x): return mkb(MathMod._s(x).isfin())
    @staticmethod
    def hypot(*a):
        r = None
        for x in a:
            y = MathMod._s(x); r = y * y if r is None else r + y * y
        return n_sqrt(r, False)

class ItertoolsMod:
    @staticmethod
    def count(*a): return itertools.count(*a)
    @staticmethod
    def product(*xs, repeat=1):
        if any(is_symseq(x) for x in xs):
            ss = [as_seq(x) for x in xs] * repeat
            d = A.pdim(*[s.n for s in ss])
            def at(k):
                k = nix(k, d)
                parts = list(k.parts) if isinstance(k, PIx) else [k]
                out = []
                for s in ss:
                    if isinstance(s.n, int) and s.n == 1:
                        out.append(s.at(0))
                    else:
                        m = len(comps(s.n)); out.append(s.at(A.build_ix(s.n, parts[:m]))); parts = parts[m:]
                return tuple(out)
            return Seq(d, at)
        return [tuple(t) for t in itertools.product(*[native(x) for x in xs], repeat=repeat)]
    @staticmethod
    def pairwise(x):
        x = b_list(x); return b_zip(x, x[1:])
    @staticmethod
    def chain(*xs):
        if any(is_symseq(x) for x in xs): return A.seq_concat(list(xs))
        return [v for x in xs for v in native(x)]
    @staticmethod
    def combinations(x, r): return [tuple(t) for t in itertools.combinations(native(x), r)]
    @staticmethod
    def repeat(x, n): return [x] * n
    @staticmethod
    def islice(x, *a): return native(x)[slice(*a)]
