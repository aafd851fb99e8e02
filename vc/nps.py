"""numpy facade: the numpy operations the code under check uses, over symbolic arrays."""
import itertools, math
import z3
from .sym import *
from . import sym
from .arr import *
from .arr import _n, norm_axes, red, vec_reduce, vnorm
from . import arr as A

inf = float('inf')
nan = float('nan')
pi_term = z3.Real('pi')
REG_PI = [z3.And(pi_term > z3.RealVal('3.14159'), pi_term < z3.RealVal('3.1416'))]
newaxis = None

def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(mkdim(lift(d)) if not isinstance(d, Num) else mkdim(d) for d in s)
    if isinstance(s, Arr):
        return tuple(mkdim(x) for x in s)
    return (mkdim(s if isinstance(s, Num) else lift(s)),)

def chk_dims(shape):
    for d in shape:
        if isinstance(d, int):
            if d < 0:
                raise ValueError('negative dimensions are not allowed')
        elif not d.parts and decide(d.fin < 0):
            raise ValueError('negative dimensions are not allowed')
        if isinstance(d, Num) and d.kind != 'i':
            raise TypeError("'float' object cannot be interpreted as an integer")
    return shape

def array(x, dtype=None, copy=True, **k):
    a = asarr(x, dtype_kind(dtype) if dtype is not None else None)
    if a.ndim == 0 and not isinstance(x, Arr):
        pass
    return a.copy() if isinstance(a, Arr) else a

def asarray(x, dtype=None, **k):
    return asarr(x, dtype_kind(dtype) if dtype is not None else None)
asanyarray = asarray

def zeros(shape, dtype=None, **k):
    return const_arr(chk_dims(_shape(shape)), 0.0 if dtype_kind(dtype) == 'f' else 0, dtype_kind(dtype))
def ones(shape, dtype=None, **k):
    return const_arr(chk_dims(_shape(shape)), 1.0 if dtype_kind(dtype) == 'f' else 1, dtype_kind(dtype))
def empty(shape, dtype=None, **k):
    return sym_arr('empty', chk_dims(_shape(shape)), dtype_kind(dtype))
def full(shape, v, dtype=None, **k):
    kd = dtype_kind(dtype) if dtype is not None else asarr(v).kind
    sh = chk_dims(_shape(shape))
    va = asarr(v)
    if va.ndim == 0:
        return const_arr(sh, va.at(), kd)
    return broadcast_to(va, sh).astype(DType(kd, kd))
def zeros_like(a, dtype=None, **k):
    a = asarr(a)
    return zeros(a.shape_, dtype or a.dtype)
def ones_like(a, dtype=None, **k):
    a = asarr(a)
    return ones(a.shape_, dtype or a.dtype)
def full_like(a, v, dtype=None, **k):
    a = asarr(a)
    return full(a.shape_, v, dtype or a.dtype)
def empty_like(a, dtype=None, **k):
    a = asarr(a)
    return empty(a.shape_, dtype or a.dtype)
def eye(n, m=None, dtype=None, **k):
    n = mkdim(lift(n))
    kd = dtype_kind(dtype)
    return Arr((n, n if m is None else mkdim(lift(m))), lambda ix: n_ite(eq_ix(ix[0], ix[1]), elem_cast(1, kd), elem_cast(0, kd)), kd)
identity = eye

def sym_arr(name, shape, kind='f', fact=None):
    """fresh unconstrained array; fact(idx, term) -> formula assumed of every element"""
    shape = tuple(mkdim(d) for d in shape)
    cd = [c for d in shape for c in comps(d)]
    sort = {'f': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort()}[kind]
    if not cd or all(isinstance(c, int) for c in cd) and math.prod(cd) <= 32:
        cells = {}
        for ix in itertools.product(*[range(c) for c in cd]):
            cells[ix] = z3.Const(fresh_name(name + ''.join('_%d' % i for i in ix)), sort)
            if fact is not None:
                REG.add_static(str(cells[ix]), fact(ix, cells[ix]))
        def get(ix):
            vals = []
            for i, d in zip(ix, shape):
                i = nix(i, d)
                vals.extend(i.parts if isinstance(i, PIx) else [i])
            if all(isinstance(v, int) for v in vals):
                t = cells[tuple(vals)]
            else:
                t = None
                for kx, c in cells.items():
                    cond = t_and(*[True if (isinstance(v, int) and v == j) else (False if isinstance(v, int) else v == j) for v, j in zip(vals, kx)])
                    if cond is False:
                        continue
                    t = c if t is None else t_ite(cond, c, t)
            return mkb(t) if kind == 'b' else Num(t, kind=kind, np=True)
        a = Arr(shape, get, kind)
        a.meta['cells'] = cells
        a.meta['name'] = name
        return a
    f = z3.Function(fresh_name(name), *([z3.IntSort()] * len(cd)), sort)
    REG.funcdom[f.name()] = tuple(domkey(c) for c in cd)
    if fact is not None:
        REG.applemma[f.name()] = lambda app: [t_bool(fact(tuple(app.children()), app))]
    def get(ix):
        vals = []
        for i, d in zip(ix, shape):
            i = nix(i, d)
            vals.extend(i.parts if isinstance(i, PIx) else [i])
        t = f(*[intt(v) for v in vals])
        return mkb(t) if kind == 'b' else Num(t, kind=kind, np=True)
    a = Arr(shape, get, kind)
    a.meta['fun'] = f
    a.meta['name'] = name
    return a

def arange(*args, dtype=None):
    n = [lift(a) for a in args]
    if len(n) == 1:
        lo, hi, st = lift(0), n[0], lift(1)
    elif len(n) == 2:
        lo, hi, st = n[0], n[1], lift(1)
    else:
        lo, hi, st = n
    if any(x.kind != 'i' for x in (lo, hi, st)):
        raise Unsupported('arange of floats')
    c = st.const()
    if c is None or c == 0:
        raise Unsupported('arange step')
    c = int(c)
    num = simpi(hi.fin - lo.fin) if c > 0 else simpi(lo.fin - hi.fin)
    if abs(c) != 1:
        num = simpi((intt(num) + (abs(c) - 1)) / abs(c))
    d = dim_max0(num)
    # keep a composite dim as such
    if c == 1 and lo.const() == 0 and isinstance(args[-1] if len(args) == 1 else args[1], Num):
        orig = args[0] if len(args) == 1 else args[1]
        if orig.parts:
            d = orig
    kd = dtype_kind(dtype) if dtype is not None else 'i'
    l0 = simpi(lo.fin)
    return Arr((d,), lambda ix: elem_cast(Num(intt(addk(l0, ix[0], c)), kind='i', np=True), kd), kd)

def linspace(start, stop, num=50, endpoint=True, axis=0, **k):
    n = lift(num)
    if n.kind != 'i':
        raise TypeError("'float' object cannot be interpreted as an integer")
    d = mkdim(n)
    s, e = asarr(start), asarr(stop)
    sh = bcast_shapes([s.shape_, e.shape_])
    ms, me = bmap(s.shape_, sh), bmap(e.shape_, sh)
    sf, ef = s.snap(), e.snap()
    if isinstance(d, int) and d < 0 or (not isinstance(d, int) and decide(d.fin < 0)):
        raise ValueError('Number of samples must be non-negative')
    div = n_sub(n, lift(1)) if endpoint else n
    one = isinstance(d, int) and d == 1 and endpoint
    def fn(ix):
        a, b = _n(sf(ms(ix[1:]))), _n(ef(me(ix[1:])))
        i = inum(ix[0])
        if one:
            return a
        # numpy: start + i * (stop-start)/div ; last = stop exactly when endpoint
        dv = real(div.fin)
        t = n_quot_pos(real(i.fin), dv)
        return n_add(a, n_mul(Num(t, kind='f', np=True), n_sub(b, a)))
    return Arr((d,) + tuple(sh), fn, 'f')

def n_quot_pos(x, y):
    return sym.n_quot(z3.simplify(x), z3.simplify(y))

def broadcast_to(a, shape):
    a = asarr(a)
    shape = _shape(shape)
    m = bmap(a.shape_, shape)
    sf = a.snap()
    return Arr(shape, lambda ix: sf(m(ix)), a.kind)
def broadcast_arrays(*xs):
    xs = [asarr(x) for x in xs]
    sh = bcast_shapes([x.shape_ for x in xs])
    return [broadcast_to(x, sh) for x in xs]

def copy(a, **k):
    return asarr(a).copy()

# ---- joining
def concatenate(parts, axis=0, **k):
    if isinstance(parts, Seq) and not isinstance(parts.n, int):
        return concat_seq(parts, axis)
    parts = [asarr(p) for p in (list(parts) if not isinstance(parts, Arr) else [parts[i] for i in range(len(parts))])]
    if not parts:
        raise ValueError('need at least one array to concatenate')
    if axis is None:
        parts = [p.flatten() for p in parts]
        axis = 0
    nd = parts[0].ndim
    if nd == 0:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    if any(p.ndim != nd for p in parts):
        raise ValueError('all the input array dimensions must match')
    axis = axis % nd
    if len(parts) == 1:
        return parts[0].copy()
    for ax in range(nd):
        if ax != axis:
            for p in parts[1:]:
                if not same_dim(parts[0].shape_[ax], p.shape_[ax]):
                    raise ValueError('all the input array dimensions must match')
    offs, tot = [], 0
    for p in parts:
        offs.append(dterm(tot))
        tot = dim_add(tot, p.shape_[axis])
    shape = list(parts[0].shape_)
    shape[axis] = tot
    kind = parts[0].kind
    for p in parts[1:]:
        kind = kind if kind == p.kind else rkind(o_sub, kind, p.kind)
    nonempty = [(o, p) for o, p in zip(offs, parts) if not (isinstance(p.shape_[axis], int) and p.shape_[axis] == 0)]
    snaps = [p.snap() for _, p in nonempty]
    def fn(ix):
        k = iterm(ix[axis])
        r = dead = None
        for (o, p), sf in zip(nonempty, snaps):
            ok = inr_conc(k, o, p.shape_[axis])
            if ok is False:
                continue
            kk = simpi(intt(k) - intt(o)) if not (isinstance(k, int) and isinstance(o, int)) else k - o
            pix = tuple(nix(kk if a_ == axis else iterm_keep(i, p.shape_[a_]), p.shape_[a_]) for a_, i in enumerate(ix))
            try:
                v = elem_cast(sf(pix), kind)
            except DeadValue as e:
                dead = e
                continue
            if r is None:
                r = v
            else:
                c = simp(intt(k) >= intt(o))
                r = e_ite(c, v, r)
        if r is None and dead is not None:
            raise dead
        return r
    return Arr(tuple(shape), fn, kind)

def iterm_keep(i, d):
    return i

def inr_conc(k, o, d):
    if isinstance(k, int) and isinstance(o, int) and isinstance(d, int):
        return o <= k < o + d
    if isinstance(k, int) and isinstance(o, int) and k < o:
        return False
    return None

def concat_seq(parts, axis):
    raise Unsupported('concatenation of a symbolic number of arrays')

def stack(parts, axis=0, **k):
    if isinstance(parts, Seq) and isinstance(parts.n, int) and parts.n <= SMALL and axis != 0:
        parts = [parts.at(i) for i in range(parts.n)]
    if isinstance(parts, Seq):
        if axis != 0:
            raise Unsupported('stack of symbolic sequence')
        return asarr(parts)
    parts = [asarr(p) for p in parts]
    if not parts:
        raise ValueError('need at least one array to stack')
    nd = parts[0].ndim
    ax = axis % (nd + 1)
    st = asarr(parts)
    if ax == 0:
        return st
    return moveaxis(st, 0, ax)

def vstack(parts, **k):
    return concatenate([atleast_2d(p) for p in parts], axis=0)
row_stack = vstack
def hstack(parts, **k):
    parts = [atleast_1d(p) for p in parts]
    return concatenate(parts, axis=0 if parts[0].ndim == 1 else 1)
def column_stack(parts, **k):
    ps = []
    for p in parts:
        p = asarr(p)
        ps.append(p[:, None] if p.ndim == 1 else p)
    return concatenate(ps, axis=1)
def atleast_1d(a):
    a = asarr(a)
    return a if a.ndim >= 1 else a.reshape(1)
def atleast_2d(a):
    a = asarr(a)
    if a.ndim >= 2:
        return a
    return a[None, :] if a.ndim == 1 else a.reshape(1, 1)
def append(a, b, axis=None):
    return concatenate([asarr(a), asarr(b)], axis=axis)

def repeat(a, n, axis=None):
    a = asarr(a)
    if axis is None:
        a = a.flatten()
        axis = 0
    axis = axis % a.ndim
    if isinstance(n, (Arr, list, tuple, Seq)):
        na = asarr(n)
        if na.ndim == 1 and is_one(na.shape_[0]):
            n = na.at(0)
        else:
            raise Unsupported('repeat with an array of counts')
    m = mkdim(lift(n))
    if isinstance(m, int):
        if m < 0:
            raise ValueError('repeats may not contain negative values.')
    elif decide(m.fin < 0):
        raise ValueError('repeats may not contain negative values.')
    old = a.shape_[axis]
    nd = pdim(old, m)
    shape = list(a.shape_)
    shape[axis] = nd
    sf = a.snap()
    co, cm = comps(old), comps(m)
    def fn(ix):
        i = ix[axis]
        if isinstance(old, int) and old == 1:
            j = 0
        elif isinstance(m, int) and m == 1:
            j = i
        elif isinstance(i, PIx):
            j = build_ix(old, i.parts[:len(co)])
        else:
            j = simpi(int_divmod(iterm(i), dterm(m))[0])
        return sf(tuple(nix(j, old) if p == axis else x for p, x in enumerate(ix)))
    return Arr(tuple(shape), fn, a.kind)

def tile(a, reps):
    a = asarr(a)
    if isinstance(reps, (tuple, list)):
        reps = [mkdim(lift(r)) for r in reps]
    elif isinstance(reps, Arr):
        reps = [mkdim(lift(reps.at(i))) for i in range(len(reps))]
    else:
        reps = [mkdim(lift(reps))]
    while len(reps) < a.ndim:
        reps.insert(0, 1)
    while a.ndim < len(reps):
        a = a[None]
    for r in reps:
        if isinstance(r, int):
            if r < 0:
                raise ValueError('negative dimensions are not allowed')
        elif decide(r.fin < 0):
            raise ValueError('negative dimensions are not allowed')
    src = a.shape_
    shape = tuple(pdim(r, d) for r, d in zip(reps, src))
    sf = a.snap()
    def fn(ix):
        out = []
        for i, r, d in zip(ix, reps, src):
            if isinstance(r, int) and r == 1:
                out.append(nix(i, d))
            elif isinstance(d, int) and d == 1:
                out.append(nix(0, d))
            elif isinstance(i, PIx):
                out.append(nix(build_ix(d, i.parts[-len(comps(d)):]), d))
            else:
                out.append(nix(simpi(int_divmod(iterm(i), dterm(d))[1]), d))
        return sf(tuple(out))
    return Arr(shape, fn, a.kind)

# ---- shape ops
def reshape(a, shape, **k):
    return asarr(a).reshape(shape)
def ravel(a, **k): return asarr(a).flatten()
def transpose(a, axes=None):
    a = asarr(a)
    return a.transpose(axes) if axes is not None else a.transpose()
def swapaxes(a, x, y): return asarr(a).swapaxes(x, y)
def moveaxis(a, src, dst):
    a = asarr(a)
    n = a.ndim
    src = [s % n for s in (src if isinstance(src, (list, tuple)) else [src])]
    dst = [s % n for s in (dst if isinstance(dst, (list, tuple)) else [dst])]
    order = [i for i in range(n) if i not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return a.transpose(order)
def expand_dims(a, axis):
    a = asarr(a)
    axes = axis if isinstance(axis, (tuple, list)) else [axis]
    n = a.ndim + len(axes)
    axes = [x % n for x in axes]
    key = tuple(None if i in axes else slice(None) for i in range(n))
    return a[key]
def squeeze(a, axis=None):
    a = asarr(a)
    if axis is None:
        key = []
        for d in a.shape_:
            if is_one(d):
                key.append(0)
            elif isinstance(d, int):
                key.append(slice(None))
            else:
                key.append(0 if decide(intt(dterm(d)) == 1) else slice(None))
        return a[tuple(key)]
    axes = [x % a.ndim for x in (axis if isinstance(axis, (tuple, list)) else [axis])]
    for x in axes:
        if not same_dim(a.shape_[x], 1):
            raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
    return a[tuple(0 if i in axes else slice(None) for i in range(a.ndim))]
def roll(a, shift, axis=None):
    a = asarr(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported('roll flat')
        axis = 0
    axis = axis % a.ndim
    s = lift(shift)
    d = a.shape_[axis]
    D = dterm(d)
    sf = a.snap()
    if s.const() is None:
        raise Unsupported('roll by symbolic amount')
    s = int(s.const())
    def fn(ix):
        i = iterm(ix[axis])
        if isinstance(i, int) and isinstance(D, int):
            j = (i - s) % D
        elif abs(s) <= 1:
            t = intt(i) - s
            j = simpi(z3.If(t < 0, t + intt(D), z3.If(t >= intt(D), t - intt(D), t)))
        else:
            j = simpi(int_divmod(intt(i) - s, D)[1])
        return sf(tuple(nix(j, d) if p == axis else x for p, x in enumerate(ix)))
    return Arr(a.shape_, fn, a.kind)
def flip(a, axis=None):
    a = asarr(a)
    axes = norm_axes(a, axis)
    return a[tuple(slice(None, None, -1) if i in axes else slice(None) for i in range(a.ndim))]
def flatnonzero(a): return nonzero(asarr(a).flatten())[0]

def meshgrid(*xs, indexing='xy', **k):
    xs = [asarr(x) for x in xs]
    if indexing == 'xy' and len(xs) == 2:
        sh = (xs[1].shape_[0], xs[0].shape_[0])
        f0, f1 = xs[0].snap(), xs[1].snap()
        return [Arr(sh, lambda ix: f0((ix[1],)), xs[0].kind), Arr(sh, lambda ix: f1((ix[0],)), xs[1].kind)]
    if indexing != 'ij':
        raise Unsupported('meshgrid')
    sh = tuple(x.shape_[0] for x in xs)
    return [Arr(sh, (lambda f, p: lambda ix: f((ix[p],)))(x.snap(), p), x.kind) for p, x in enumerate(xs)]

# ---- elementwise
def _ew2(f, kind=None):
    def g(a, b, out=None, where=None, **k):
        if where is not None or k:
            raise Unsupported('ufunc options')
        if is_num_scalar(a) and is_num_scalar(b):
            r = f(_n(a) if not isinstance(a, (bool, B)) else a, _n(b) if not isinstance(b, (bool, B)) else b)
        else:
            r = ew(f, [asarr(a), asarr(b)], kind)
        if out is not None:
            return _out(out, r)
        return r
    return g
def is_num_scalar(x):
    return numlike(x) and not isinstance(x, Arr)
def _out(out, r):
    if isinstance(out, tuple):
        out = out[0]
    ra = asarr(r)
    m = bmap(ra.shape_, out.shape_)
    rf = ra.snap()
    out._write(lambda ix: True, lambda ix: rf(m(ix)))
    return out
def _ew1(f, kind=None):
    def g(a, out=None, **k):
        if is_num_scalar(a):
            return f(a)
        a = asarr(a)
        r = unwrap0(a._map(f, kind or a.kind))
        return _out(out, r) if out is not None else r
    return g

class UFunc:
    def __init__(self, f2, red=None, ident=None):
        self.f2, self.red = f2, red
    def __call__(self, *a, **k):
        return self.f2(*a, **k)
    def reduce(self, a, axis=0, keepdims=False, **k):
        if self.red is None:
            raise Unsupported('ufunc.reduce')
        a = asarr(a)
        return self.red(a, axis, keepdims)
    def outer(self, a, b):
        a, b = asarr(a), asarr(b)
        return self.f2(a[(slice(None),) * a.ndim + (None,) * b.ndim], b)
    def accumulate(self, a, axis=0):
        raise Unsupported('ufunc.accumulate')

add = UFunc(_ew2(o_add), lambda a, ax, kd: red_sum(a, ax, kd))
subtract = UFunc(_ew2(o_sub))
multiply = UFunc(_ew2(o_mul), lambda a, ax, kd: red_prod(a, ax, kd))
divide = UFunc(_ew2(o_div, 'f'))
true_divide = divide
floor_divide = UFunc(_ew2(o_fdiv))
mod = remainder = UFunc(_ew2(o_mod))
power = UFunc(_ew2(o_pow))
less = UFunc(_ew2(o_lt, 'b'))
less_equal = UFunc(_ew2(o_le, 'b'))
greater = UFunc(_ew2(o_gt, 'b'))
greater_equal = UFunc(_ew2(o_ge, 'b'))
equal = UFunc(_ew2(o_eq, 'b'))
not_equal = UFunc(_ew2(o_ne, 'b'))
logical_and = UFunc(_ew2(o_land, 'b'), lambda a, ax, kd: red_bool(a, ax, 'all', kd))
logical_or = UFunc(_ew2(o_lor, 'b'), lambda a, ax, kd: red_bool(a, ax, 'any', kd))
logical_xor = UFunc(_ew2(o_xor, 'b'))
bitwise_and = UFunc(_ew2(o_and, 'b'), lambda a, ax, kd: red_bool(a, ax, 'all', kd))
bitwise_or = UFunc(_ew2(o_or, 'b'), lambda a, ax, kd: red_bool(a, ax, 'any', kd))
logical_not = _ew1(lambda x: mkb(t_not(as_t(x))), 'b')
invert = bitwise_not = logical_not
def _npmin(a, b): return n_min(_n(a), _n(b))
def _npmax(a, b): return n_max(_n(a), _n(b))
minimum = UFunc(_ew2(_npmin), lambda a, ax, kd: red_minmax(a, ax, 'min', kd))
maximum = UFunc(_ew2(_npmax), lambda a, ax, kd: red_minmax(a, ax, 'max', kd))
fmin, fmax = minimum, maximum
negative = _ew1(lambda x: -_n(x))
np_abs = absolute = fabs = _ew1(lambda x: builtins_abs(_n(x)))
import builtins as _bi
builtins_abs = _bi.abs
sqrt = _ew1(lambda x: n_sqrt(_n(x)), 'f')
square = _ew1(lambda x: n_mul(_n(x), _n(x)))
log = _ew1(lambda x: n_log(_n(x)), 'f')
log2 = _ew1(lambda x: n_log(_n(x), base=2), 'f')
def log1p(x): return log(1 + x if is_num_scalar(x) else asarr(x) + 1)
exp = _ew1(lambda x: n_exp(_n(x)), 'f')
floor = _ew1(lambda x: n_floor(_n(x)).tofloat(), 'f')
ceil = _ew1(lambda x: n_ceil(_n(x)).tofloat(), 'f')
def _trunc(x):
    x = _n(x)
    return n_ite(x.fin >= 0, n_floor(x), n_ceil(x))
trunc = fix = _ew1(_trunc, 'f')
rint = _ew1(lambda x: to_round(_n(x)).tofloat(), 'f')
isnan = _ew1(lambda x: mkb(_n(x).nan), 'b')
isinf = _ew1(lambda x: mkb(t_or(_n(x).pinf, _n(x).ninf)), 'b')
isfinite = _ew1(lambda x: mkb(_n(x).isfin()), 'b')
def _sign(x):
    x = _n(x)
    if x.special():
        raise Unsupported('sign of special')
    t = z3.If(x.fin > 0, 1, z3.If(x.fin < 0, -1, 0))
    return Num(t, kind='i', np=True) if x.kind == 'i' else Num(z3.ToReal(t), kind='f', np=True)
sign = _ew1(_sign)
signbit = _ew1(lambda x: mkb(_n(x).fin < 0), 'b')

def clip(a, lo=None, hi=None, a_min=None, a_max=None, out=None, **k):
    lo = lo if lo is not None else a_min
    hi = hi if hi is not None else a_max
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return _out(out, r) if out is not None else r

def where(c, a=None, b=None):
    if a is None and b is None:
        return nonzero(c)
    ca = asarr(c)
    aa, ba = asarr(a), asarr(b)
    kind = aa.kind if aa.kind == ba.kind else rkind(o_sub, aa.kind, ba.kind)
    return ew(lambda x, y, z: e_ite(as_t(x), elem_cast(y, kind), elem_cast(z, kind)), [ca, aa, ba], kind)
def choose(*a, **k): raise Unsupported('choose')
def select(conds, vals, default=0):
    r = default
    for c, v in zip(reversed(list(conds)), reversed(list(vals))):
        r = where(c, v, r)
    return r

def nonzero(a):
    a = asarr(a)
    m = a if a.kind == 'b' else a._map(lambda x: mkb(as_t(x)), 'b')
    pos = concrete_mask(m)
    if pos is not None:
        return tuple(Arr((len(pos),), (lambda p: lambda ix: lift(A.pick([q[p] for q in pos], ix[0])))(p), 'i') for p in range(a.ndim))
    s = selection(m)
    out = []
    for p in range(a.ndim):
        r = Arr((s.n,), (lambda p: lambda ix: inum(s.ix(ix[0])[p]))(p), 'i')
        r.meta['selix'] = (s, p)
        r.meta['safe'] = True
        r.meta['nonneg'] = True
        out.append(r)
    return tuple(out)
def argwhere(a): return transpose(list(nonzero(a)))
def count_nonzero(a, axis=None):
    a = asarr(a)
    if a.ndim != 1:
        raise Unsupported('count_nonzero')
    m = a if a.kind == 'b' else a._map(lambda x: mkb(as_t(x)), 'b')
    pos = concrete_mask(m)
    return len(pos) if pos is not None else selection(m).n

# ---- reductions
def np_all(a, axis=None, out=None, keepdims=False, **k): return red_bool(asarr(a), axis, 'all', keepdims)
def np_any(a, axis=None, out=None, keepdims=False, **k): return red_bool(asarr(a), axis, 'any', keepdims)
alltrue, sometrue = np_all, np_any
def np_min(a, axis=None, keepdims=False, **k): return red_minmax(a, axis, 'min', keepdims)
def np_max(a, axis=None, keepdims=False, **k): return red_minmax(a, axis, 'max', keepdims)
amin, amax = np_min, np_max
def ptp(a, axis=None): return np_max(a, axis) - np_min(a, axis)
def np_sum(a, axis=None, keepdims=False, **k): return red_sum(a, axis, keepdims)
def prod(a, axis=None, keepdims=False, **k): return red_prod(a, axis, keepdims)
def mean(a, axis=None, keepdims=False, **k):
    a = asarr(a)
    n = 1
    for ax in norm_axes(a, axis):
        n = n * a.shape_[ax]
    return np_sum(a, axis, keepdims) / (n if isinstance(n, int) else n.tofloat())
def argmin(a, axis=None, **k): return _arg(a, axis, 'min')
def argmax(a, axis=None, **k): return _arg(a, axis, 'max')
def _arg(a, axis, op):
    a = asarr(a)
    if a.kind == 'b':
        a = a.astype(DType('i', 'int64'))
    if axis is None:
        if a.ndim != 1:
            raise Unsupported('argmin over several axes')
        axis = 0
    def f(dims, cl):
        d = dims[0]
        if small(d):
            if d == 0:
                raise ValueError('attempt to get argmin of an empty sequence')
            bi, bv = lift(0), _n(cl(0))
            for i in range(1, d):
                v = _n(cl(i))
                c = as_t(n_lt(v, bv) if op == 'min' else n_lt(bv, v))
                bi, bv = n_ite(c, lift(i), bi), n_ite(c, v, bv)
            bi.np = True
            return bi
        if not decide(intt(dterm(d)) > 0):
            raise ValueError('attempt to get argmin of an empty sequence')
        k = fresh_int('arg')
        REG.constdom[str(k)] = domkey(d)
        v = _n(cl(k))
        lo = forall_t([d], lambda j: as_t(n_le(v, _n(cl(j))) if op == 'min' else n_le(_n(cl(j)), v)))
        first = forall_t([d], lambda j: t_imp(intt(iterm(j)) < k, as_t(n_lt(v, _n(cl(j))) if op == 'min' else n_lt(_n(cl(j)), v))))
        REG.add_static(str(k), z3.And(k >= 0, k < intt(dterm(d))), lo, first)
        return Num(k, kind='i', np=True)
    return red(a, axis, False, f, 'i')
def cumsum(a, axis=None, **k):
    a = asarr(a)
    if a.ndim != 1:
        if axis is None:
            a = a.flatten()
        else:
            raise Unsupported('cumsum axis')
    if not isinstance(a.shape_[0], int):
        raise Unsupported('cumsum over a symbolic axis')
    vals, s = [], lift(0)
    for i in range(a.shape_[0]):
        s = n_add(s, _n(a.at(i))) if i else _n(a.at(0))
        vals.append(s)
    return Arr(a.shape_, lambda ix: A.pick(vals, ix[0]), a.kind if a.kind != 'b' else 'i')
def diff(a, n=1, axis=-1, **k):
    a = asarr(a)
    if n != 1:
        raise Unsupported('diff n')
    ax = axis % a.ndim
    hi = tuple(slice(1, None) if i == ax else slice(None) for i in range(a.ndim))
    lo = tuple(slice(None, -1) if i == ax else slice(None) for i in range(a.ndim))
    return a[hi] - a[lo]

# ---- linear algebra
def dot(a, b):
    if is_num_scalar(a) or is_num_scalar(b):
        return multiply(a, b)
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return multiply(a, b)
    return matmul(a, b)
def inner(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return multiply(a, b)
    if b.ndim == 1:
        return np_sum(a * b, axis=-1)
    if a.ndim == 1:
        return np_sum(b * a, axis=-1)
    return matmul(a, b.T)
def vdot(a, b): return np_sum(asarr(a).flatten() * asarr(b).flatten())
def matmul(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 1 and b.ndim == 1:
        if not same_dim(a.shape_[0], b.shape_[0]):
            raise ValueError('shapes not aligned')
        return np_sum(a * b)
    a1, b1 = a.ndim == 1, b.ndim == 1
    if a1: a = a[None, :]
    if b1: b = b[:, None]
    if not same_dim(a.shape_[-1], b.shape_[-2]):
        raise ValueError('matmul: mismatch in core dimension')
    nb = builtins_max(a.ndim, b.ndim) - 2
    while a.ndim - 2 < nb: a = a[None]
    while b.ndim - 2 < nb: b = b[None]
    r = np_sum(a[..., :, :, None] * b[..., None, :, :], axis=-2)
    if a1: r = r[..., 0, :]
    if b1: r = r[..., 0]
    return r
builtins_max = _bi.max
def outer(a, b): return asarr(a).flatten()[:, None] * asarr(b).flatten()[None, :]
def cross(a, b, axis=-1, **k):
    a, b = asarr(a), asarr(b)
    if axis not in (-1, a.ndim - 1):
        raise Unsupported('cross axis')
    da, db = a.shape_[-1], b.shape_[-1]
    if da == 2 and db == 2:
        return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    if da == 3 and db == 3:
        c = [a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1],
             a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
             a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]]
        return stack(c, axis=-1)
    raise Unsupported('cross of these dimensions')
def einsum(spec, *ops, **k):
    ops = [asarr(o) for o in ops]
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        cnt = {}
        for c in ins.replace(',', ''):
            cnt[c] = cnt.get(c, 0) + 1
        out = ''.join(sorted(c for c in cnt if cnt[c] == 1))
    ins = ins.split(',')
    if any_in('.', spec):
        raise Unsupported('einsum ellipsis')
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError('einsum operand mismatch')
        for c, d in zip(s, o.shape_):
            if c in dims:
                dims[c] = bcast_dims(dims[c], d)
            else:
                dims[c] = d
    summed = [c for c in dims if c not in out]
    snaps = [o.snap() for o in ops]
    rd = [dims[c] for c in summed]
    kind = rkind(o_mul, *[o.kind for o in ops])
    def fn(ix):
        env = dict(zip(out, ix))
        def cl(*r):
            e = dict(env)
            e.update(zip(summed, r))
            v = None
            for s, o, sf in zip(ins, ops, snaps):
                x = _n(sf(tuple(nix(0 if is_one(d) else e[c], d) for c, d in zip(s, o.shape_))))
                v = x if v is None else n_mul(v, x)
            return v
        return vec_reduce('sum', rd, cl) if rd else cl()
    return unwrap0(Arr(tuple(dims[c] for c in out), fn, kind))
def any_in(c, s): return c in s
def trace(a): return np_sum([asarr(a)[i, i] for i in range(len(asarr(a)))])

class linalg:
    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        a = asarr(x)
        if a.kind in 'ib':
            a = a.astype(DType('f', 'float64'))
        if axis is None:
            if a.ndim != 1 and ord is not None:
                raise Unsupported('matrix norm')
            axis = tuple(range(a.ndim))
        if ord in (None, 2):
            return red(a, axis, keepdims, lambda dims, cl: vnorm(dims, cl), 'f')
        if ord == inf:
            return red_minmax(abs(a), axis, 'max', keepdims)
        if ord == 1:
            return red_sum(abs(a), axis, keepdims)
        raise Unsupported('norm ord')
    LinAlgError = ValueError
    @staticmethod
    def det(a):
        a = asarr(a)
        if a.ndim == 2 and a.shape_ == (2, 2):
            return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
        raise Unsupported('det')

# ---- sets, misc
def unique(a, axis=None, **k):
    if axis == 0 and asarr(a).ndim == 2 and isinstance(asarr(a).shape_[1], int) and set(k) <= {'return_inverse'}:
        r = unique_rows(a)
        return r if k.get('return_inverse') else r[0]
    if k or axis is not None:
        raise Unsupported('unique options')
    a = asarr(a)
    r = UniqueArr(a)
    return r.arr
def unique_rows(a):
    """np.unique(a, axis=0, return_inverse=True): the rows of the result are the rows of `a`, each once"""
    a = asarr(a).copy()
    n, N = a.shape_[0], intt(dterm(a.shape_[0]))
    m = fresh_int('nuniq')
    REG.add_static(str(m), z3.And(m >= 0, m <= N, (m >= 1) == (N >= 1)))
    I = z3.IntSort()
    inv, rep = z3.Function(fresh_name('inverse'), I, I), z3.Function(fresh_name('first'), I, I)
    f = a.snap()
    md = Num(m, kind='i')
    REG.applemma[inv.name()] = lambda t: [z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < N), z3.And(t >= 0, t < m))]
    REG.applemma[rep.name()] = lambda t: [z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < m), z3.And(t >= 0, t < N, inv(t) == t.arg(0)))]
    C = a.shape_[1]
    # a row of the result is the row of `a` it stands for; rows of `a` with the same number are equal, and only those
    def same(i, j): return t_and(*[as_t(n_eq(_n(f((i, c))), _n(f((j, c))))) for c in range(C)])
    def lem(apps, inst):
        ts = [t for t in apps]
        out = []
        for x in ts:
            k = x.arg(0)
            ok = z3.And(k >= 0, k < N)
            out.append(z3.Implies(ok, t_bool(same(k, rep(x)))) if not (z3.is_app(k) and k.decl().name() == rep.name()) else z3.BoolVal(True))
        for i in range(len(ts)):
            for j in range(i):
                k, l = ts[i].arg(0), ts[j].arg(0)
                if len(ts) <= 12:
                    out.append(z3.Implies(z3.And(k >= 0, k < N, l >= 0, l < N), (ts[i] == ts[j]) == t_bool(same(k, l))))
        return out
    REG.funclemma[inv.name()] = lem
    U = Arr((md, C), lambda ix: f((rep(intt(iterm(ix[0]))), ix[1])), a.kind)
    V = Arr((n,), lambda ix: Num(inv(intt(iterm(ix[0]))), kind='i', np=True), 'i')
    return U, V
class UniqueArr:
    """sorted distinct values of an array: opaque result with its defining axioms"""
    def __init__(self, a):
        m = fresh_int('nuniq')
        REG.add_static(str(m), m >= 0)
        self.arr = sym_arr('uniq', (Num(m, kind='i'),), a.kind)
        self.arr.meta['unique_of'] = a
def delete(a, idx, axis=None):
    a = asarr(a)
    if axis is None and a.ndim != 1: a, axis = a.flatten(), 0
    ia = asarr(idx)
    n = a.shape_[axis or 0]
    if not isinstance(n, int) and not axis and ia.ndim <= 1:
        ps = _places(ia, n, False)
        return _shifted(a, lambda k: add_all(k, [z3.If(intt(k) + j >= p, 1, 0) for j, p in enumerate(ps)]), -len(ps))
    if not (a.ndim >= 1 and isinstance(n, int)):
        raise Unsupported('delete on symbolic axis')
    ids = set()
    for i in range(ia.shape_[0]) if ia.ndim else [None]:
        c = lift(ia.at(i) if i is not None else ia.at()).const()
        if c is None:
            raise Unsupported('delete at symbolic index')
        ids.add(int(c) % n)
    return a[[i for i in range(n) if i not in ids]] if not axis else Unsupported
def add_all(k, ts): return simp(z3.Sum([intt(k)] + ts)) if ts else k
def _places(ia, n, end):
    """positions on an axis of length n, which the path condition has to show are in range and ascending"""
    if ia.ndim and not isinstance(ia.shape_[0], int): raise Unsupported('positions of a symbolic number')
    ps = [intt(lift(x).fin) for x in ([ia.at(i) for i in range(ia.shape_[0])] if ia.ndim else [ia.at()])]
    N = intt(dterm(n))
    for a, p in enumerate(ps):
        if not decide(z3.And(p >= 0, p <= N if end else p < N)): raise Unsupported('position out of range or counted from the end')
        if a and not decide(ps[a - 1] <= p if end else ps[a - 1] < p): raise Unsupported('positions are not ascending')
    return ps
def _shifted(a, src, dn):
    f = a.snap()
    return Arr((dim_add(a.shape_[0], dn),) + tuple(a.shape_[1:]), lambda ix: f((src(iterm(ix[0])),) + tuple(ix[1:])), a.kind)
def insert(a, idx, vals, axis=None):
    a = asarr(a)
    if axis is None and a.ndim != 1: a, axis = a.flatten(), 0
    if axis: raise Unsupported('insert along another axis')
    ia, va = asarr(idx), asarr(vals)
    if a.ndim != 1: raise Unsupported('insert into a matrix')
    if isinstance(a.shape_[0], int) and not ia.ndim: raise Unsupported('insert')
    ps = _places(ia, a.shape_[0], True)
    vs = [elem_cast(va.at(j) if va.ndim and va.shape_[0] != 1 else va.at(0) if va.ndim else va.at(), a.kind) for j in range(len(ps))]
    if va.ndim and va.shape_[0] not in (1, len(ps)): raise ValueError('could not broadcast input array')
    f = a.snap()
    def at(ix):
        k = intt(iterm(ix[0]))
        r = f((add_all(k, [z3.If(p + j < k, -1, 0) for j, p in enumerate(ps)]),))
        for j, p in enumerate(ps):
            r = e_ite(simp(k == p + j), vs[j], r)
        return r
    return Arr((dim_add(a.shape_[0], len(ps)),), at, a.kind)
def sort(a, axis=-1): raise Unsupported('sort')
def argsort(a, axis=-1): raise Unsupported('argsort')
def searchsorted(*a, **k): raise Unsupported('searchsorted')
def array_equal(a, b):
    return A.val_eq(asarr(a), asarr(b))
def allclose(a, b, rtol=1e-05, atol=1e-08, **k):
    a, b = asarr(a), asarr(b)
    return np_all(abs(a - b) <= atol + rtol * abs(b))
isclose = lambda a, b, rtol=1e-05, atol=1e-08, **k: abs(asarr(a) - asarr(b)) <= atol + rtol * abs(asarr(b))
def ndim(a): return asarr(a).ndim
def shape(a): return asarr(a).shape_
def size(a, axis=None):
    a = asarr(a)
    return a.size if axis is None else a.shape_[axis]
def isscalar(a): return is_num_scalar(a)
def take(a, idx, axis=None):
    a = asarr(a)
    if axis is None:
        return a.flatten()[idx]
    return a[(slice(None),) * (axis % a.ndim) + (idx,)]
def nan_to_num(a, nan=0.0, **k):
    def f(x):
        x = _n(x)
        if x.nan is False:
            return x
        return n_ite(x.nan, lift(float(nan)), Num(x.fin, False, x.pinf, x.ninf, x.kind, True))
    return _ew1(f)(a)
def result_type(*a): return float64
def can_cast(*a): return True

class _ErrState:
    def __init__(self, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
errstate = _ErrState
def seterr(**k): return {}
def set_printoptions(**k): pass

class _Ix:
    def __getitem__(self, k): raise Unsupported('index tricks')
mgrid = ogrid = c_ = r_ = _Ix()

float64, float32 = DType('f', 'float64'), DType('f', 'float32')
int64, int32, intp = DType('i', 'int64'), DType('i', 'int32'), DType('i', 'intp')
int_, uint64, uint32 = int64, DType('i', 'uint64'), DType('i', 'uint32')
float_, double = float64, float64
bool_ = DType('b', 'bool')
object_ = DType('o', 'object')
ndarray = Arr
integer = ('np.integer',)
floating = ('np.floating',)
e = None

# ---- random: an external source with a ghost log of calls
class RNG:
    def __init__(self, seed=None):
        self.seed = seed
        self.log = []
        self.count = 0
    def _rec(self, *entry):
        self.log.append(entry)
        if STACK.items:
            _swap_pop(self, self.log, entry)
    def _unit(self, sh):
        """one draw of independent uniform [0,1) variates of shape sh, recorded in the ghost log"""
        u = sym_arr('u', sh, 'f', lambda ix, t: z3.And(t >= 0, t < 1))
        self._rec('unit', sh, u)
        return u
    def uniform(self, low=0.0, high=1.0, size=None):
        lo, hi = asarr(low), asarr(high)
        bs = bcast_shapes([lo.shape_, hi.shape_])
        if size is None:
            sh = bs
        else:
            sh = _shape(size)
            chk_dims(sh)
            if len(bs) > len(sh):
                raise ValueError('Output size is not compatible with broadcast dimensions of inputs.')
            full = bcast_shapes([bs, sh])
            if not all(same_dim(x, y) for x, y in zip(full, sh)):
                raise ValueError('Output size is not compatible with broadcast dimensions of inputs.')
        u = self._unit(sh)
        ml, mh = bmap(lo.shape_, sh), bmap(hi.shape_, sh)
        lf, hf, uf = lo.snap(), hi.snap(), u.snap()
        def at(ix):
            a, b = _n(lf(ml(ix))), _n(hf(mh(ix)))
            return n_add(a, n_mul(uf(ix), n_sub(b, a)))
        return unwrap0(Arr(sh, at, 'f'))
    def random(self, size=None, **k):
        return unwrap0(self._unit(() if size is None else chk_dims(_shape(size))))
    def choice(self, a, size=None, replace=True, p=None, **k):
        if size is not None:
            raise Unsupported('choice with size')
        if isinstance(a, (int, Num)):
            n = mkdim(lift(a))
            pick_ = None
        else:
            sa = as_seq(a) if not isinstance(a, Arr) else a
            n = sa.n if isinstance(sa, Seq) else sa.shape_[0]
            pick_ = sa
        k = fresh_int('choice')
        REG.constdom[str(k)] = domkey(n)
        N = intt(dterm(n))
        if not decide(N > 0):
            raise ValueError('a cannot be empty unless no samples are taken')
        if p is not None:
            pa = asarr(p)
            if not same_dim(pa.shape_[0], n):
                raise ValueError('a and p must have same size')
            STACK.top.assume(z3.And(k >= 0, k < N))
            # an entry of probability 0 is never drawn
            STACK.top.assume(_n(pa.at(k)).r() > 0)
            p = pa.copy()
        else:
            STACK.top.assume(z3.And(k >= 0, k < N))
        kn = Num(k, kind='i', np=True)
        if pick_ is None:
            r = kn
        elif isinstance(pick_, Arr):
            r = pick_[kn]
        else:
            # numpy turns the sequence into an array first
            if small(n):
                items = [pick_.at(i) for i in range(n)]
                arrs = asarr(items)
                r = arrs[kn]
            else:
                r = asarr(pick_)[kn]
        self._rec('choice', n, p, kn)
        return r
    def integers(self, low, high=None, size=None, endpoint=False, **k):
        if size is not None:
            raise Unsupported('integers with size')
        lo, hi = (lift(0), lift(low)) if high is None else (lift(low), lift(high))
        n = hi - lo
        if endpoint: n = n + 1
        if not decide(n.fin > 0):
            raise ValueError('low >= high')
        k = fresh_int('choice')
        STACK.top.assume(z3.And(k >= 0, k < n.fin))
        self._rec('choice', mkdim(n), None, Num(k, kind='i', np=True))
        return Num(k + lo.fin, kind='i', np=True)
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('random generator method %s' % n)

def _swap_pop(rng, log, ent):
    state = {'on': True}
    def swap():
        if state['on']:
            log.pop()
        else:
            log.append(ent)
        state['on'] = not state['on']
    STACK.top.log_undo(swap, rng, ('ghost', ent))

class random:
    @staticmethod
    def default_rng(seed=None):
        if isinstance(seed, RNG):
            return seed
        return RNG(seed)
    Generator = RNG
    @staticmethod
    def seed(*a): raise Unsupported('global random state')
    @staticmethod
    def uniform(*a, **k): raise Unsupported('global random state')
    @staticmethod
    def random(*a, **k): raise Unsupported('global random state')
    @staticmethod
    def choice(*a, **k): raise Unsupported('global random state')

import types as _types
def module():
    """the object bound to `np` in the code under check"""
    m = NPModule()
    return m
class NPModule:
    __name__ = 'numpy'
    pi = Num(pi_term, kind='f')
    def __getattr__(self, n):
        g = globals()
        n = _alias.get(n, n)
        if n in g and not n.startswith('_') and n not in _private:
            return g[n]
        raise Unsupported('numpy.%s has no semantics here' % n)
_private = {'itertools', 'math', 'z3', 'sym', 'A', 'module', 'NPModule', 'builtins_abs', 'builtins_max', 'pi_term', 'e'}
_alias = {'all': 'np_all', 'any': 'np_any', 'min': 'np_min', 'max': 'np_max', 'sum': 'np_sum', 'abs': 'np_abs'}
REG_PI_NAME = 'pi'
