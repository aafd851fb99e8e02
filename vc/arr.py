"""Symbolic numpy arrays: lazy functional arrays over symbolic shapes, quantifier / reduction proxies."""
import itertools, weakref
import z3
from .sym import *
from .sym import _pair
from . import sym

def dterm(d):
    if isinstance(d, int):
        return d
    return simpi(d.fin)

def dnum(d):
    """dimension as the value the program sees"""
    return d

def mkdim(t):
    """z3 Int term / Num / int -> dim"""
    if isinstance(t, bool):
        return int(t)
    if isinstance(t, int):
        return t
    if isinstance(t, Num):
        if t.parts:
            return t
        c = t.const()
        return int(c) if c is not None else t
    s = simpi(t)
    return s if isinstance(s, int) else Num(s, kind='i')

def pdim(*parts):
    """composite dimension (row-major product of dims)"""
    ps = []
    for p in parts:
        if isinstance(p, Num) and p.parts:
            ps.extend(p.parts)
        else:
            ps.append(p)
    if any(isinstance(p, int) and p == 0 for p in ps):
        return 0
    ps = [p for p in ps if not (isinstance(p, int) and p == 1)]
    if not ps:
        return 1
    if len(ps) == 1:
        return ps[0]
    if all(isinstance(p, int) for p in ps):
        r = 1
        for p in ps:
            r *= p
        return r
    t = 1
    for p in ps:
        t = intt(t) * intt(dterm(p)) if not (isinstance(t, int) and t == 1) else intt(dterm(p))
    return Num(z3.simplify(intt(t)), kind='i', parts=tuple(ps))

class PIx:
    """index into a composite axis"""
    __slots__ = ('parts', 'sizes')
    def __init__(self, parts, sizes):
        self.parts, self.sizes = tuple(parts), tuple(sizes)
    def flat(self):
        t = self.parts[0]
        for p, s in zip(self.parts[1:], self.sizes[1:]):
            t = flat_index(t, dterm(s), p)
        return t
    def key(self):
        return ('P',) + tuple(ikey(p) for p in self.parts)

def ikey(i):
    if isinstance(i, int):
        return i
    if isinstance(i, PIx):
        return i.key()
    return ('z', i.get_id())

def nix(i, d):
    """normalise index i for an axis of dim d"""
    if isinstance(i, Num):
        i = simpi(i.fin)
    if isinstance(d, Num) and d.parts:
        if isinstance(i, PIx):
            if len(i.parts) == len(d.parts):
                return i
            i = i.flat()
        parts = []
        rest = i
        for s in reversed(d.parts[1:]):
            q, r = int_divmod(rest, dterm(s))
            parts.append(r)
            rest = q
        parts.append(rest)
        return PIx([simpi(p) for p in reversed(parts)], d.parts)
    if isinstance(i, PIx):
        return i.flat()
    if isinstance(i, int):
        return i
    return simpi(i)

def iterm(i):
    """index as z3/int term"""
    if isinstance(i, PIx):
        return i.flat()
    return i

def inum(i):
    t = iterm(i)
    return Num(intt(t), kind='i', np=True)

def comps(d):
    """component dims of an axis"""
    if isinstance(d, Num) and d.parts:
        return list(d.parts)
    return [d]

def build_ix(d, vals):
    if isinstance(d, Num) and d.parts:
        return PIx(vals, d.parts)
    return vals[0]

def skolem(d, base='i'):
    """fresh index constant ranging over [0,d): (index, in-range condition)"""
    vals, cond = [], True
    for c in comps(d):
        if isinstance(c, int) and c == 1:
            vals.append(0)
            continue
        k = fresh_int(base)
        REG.constdom[str(k)] = domkey(c)
        vals.append(k)
        REG.skrange[str(k)] = z3.And(k >= 0, k < intt(dterm(c)))
        cond = t_and(cond, k >= 0, k < intt(dterm(c)))
    return build_ix(d, vals), cond

def inrange(i, d):
    if isinstance(i, PIx):
        return t_and(*[inrange(p, s) for p, s in zip(i.parts, i.sizes)])
    i, n = iterm(i), dterm(d)
    if isinstance(i, int) and isinstance(n, int):
        return 0 <= i < n
    lo = (i >= 0) if not isinstance(i, int) else (0 <= i)
    hi = (i < n) if isinstance(n, int) and isinstance(i, int) else (intt(i) < intt(n))
    return t_and(lo, hi)

SMALL = 64
def small(d):
    return isinstance(d, int) and d <= SMALL

# ----------------------------------------------------------------------------- quantifiers
class QAll:
    """proxy for: forall (i in dims) closure(i)"""
    def __init__(self, dims, closure, name=None):
        self.dims = dims
        self.closure = closure
        self.q = fresh_bool(name or 'all')
        self.cdims = [c for d in dims for c in comps(d)]
        sks, cond = [], True
        for d in dims:
            s, c = skolem(d)
            sks.append(s)
            cond = t_and(cond, c)
        self.sk, self.skcond = sks, cond
        self._neg = None
        self.cache = {}
        self.own = str(self.q)
        REG.add_dynamic(self.own, self)

    def body(self, idxs):
        key = tuple(ikey(i) for i in idxs)
        if key not in self.cache:
            self.cache[key] = (self.closure(*idxs), idxs)
        return self.cache[key][0]

    def lemmas(self, inst):
        done = inst.done_dyn.setdefault(('qall', id(self)), set())
        out = []
        pol = inst.facts.pol.get(self.own, 0)
        if pol & 2 and 'neg' not in done:
            done.add('neg')
            out.append(t_imp(t_not(self.q), t_and(self.skcond, t_not(self.body(self.sk)))))
        if not pol & 1:
            return out
        choices = []
        for c in self.cdims:
            if isinstance(c, int) and c <= 8:
                choices.append(list(range(c)))
            else:
                choices.append(inst.terms(domkey(c), inst.merged))
        n = 1
        for ch in choices:
            n *= max(1, len(ch))
        if n > 1500:
            inst.capped = True
            return out
        for combo in itertools.product(*choices):
            key = tuple(ikey(t) for t in combo)
            if key in done:
                continue
            done.add(key)
            vals, idxs, p = list(combo), [], 0
            for d in self.dims:
                m = len(comps(d))
                idxs.append(build_ix(d, vals[p:p + m]))
                p += m
            rng = t_and(*[inrange(i, d) for i, d in zip(idxs, self.dims)])
            if rng is False:
                continue
            out.append(t_imp(t_and(self.q, rng), self.body(idxs)))
        return out

def forall_t(dims, closure):
    """z3 Bool/bool for forall; closure: indices -> z3 Bool/bool"""
    small_axes = all(small(d) for d in dims)
    if small_axes:
        n = 1
        for d in dims:
            n *= d
        if n <= 256:
            return t_and(*[closure(*ix) for ix in itertools.product(*[range(d) for d in dims])])
    # expand concrete axes first
    for pos, d in enumerate(dims):
        if small(d):
            rest = dims[:pos] + dims[pos + 1:]
            return t_and(*[forall_t(rest, lambda *ix, v=v, pos=pos: closure(*(ix[:pos] + (v,) + ix[pos:]))) for v in range(d)])
    for pos, d in enumerate(dims):
        sel = SELS.get(domkey(d)) if isinstance(d, Num) and not d.parts else None
        if sel is not None:
            r = unselect(dims, closure, pos, sel())
            if r is not None: return forall_t(*r)
    for pos, d in enumerate(dims):
        if isinstance(d, Num) and d.parts and any(not isinstance(p, int) and SELS.get(domkey(p)) is not None for p in d.parts):
            # a product of selections: one quantifier per factor
            k = len(d.parts)
            def cl(*ix, pos=pos, d=d, k=k):
                mid = [0 if isinstance(p, int) and p == 1 else iterm(x) for x, p in zip(ix[pos:pos + k], d.parts)]
                return closure(*(tuple(ix[:pos]) + (PIx(mid, d.parts),) + tuple(ix[pos + k:])))
            return forall_t(list(dims[:pos]) + [p if isinstance(p, int) else mkdim(p) for p in d.parts] + list(dims[pos + 1:]), cl)
    q = QAll(dims, closure)
    return q.q

def unselect(dims, closure, pos, sel):
    """a quantifier over the selected elements ranges over the source positions where the mask holds"""
    if sel is None: return None
    from . import sym as _s
    mark = next(_s._counter)
    ks = [skolem(d, 'us') for d in dims]
    body = closure(*[k[0] for k in ks])
    if isinstance(body, bool): return None
    kap = intt(iterm(ks[pos][0]))
    own = {str(p) for k in ks for p in ([x for x in (k[0].parts if isinstance(k[0], PIx) else [k[0]])])}
    seen, bad, apps = set(), [], {}
    def walk(t):
        if bad or t.get_id() in seen: return
        seen.add(t.get_id())
        if z3.is_app(t):
            nm = t.decl().name()
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                h, _, num = nm.rpartition('!')
                if h and num.isdigit() and int(num) > mark and nm not in own: bad.append(nm); return
            if t.num_args() == 1 and t.arg(0).eq(kap) and any(t.decl().eq(f) for f in sel.src):
                apps[t.decl().name()] = t
                return
            if t.eq(kap): bad.append(nm); return
        for c in t.children(): walk(c)
    walk(body)
    if bad or not apps: return None
    base = [(z3.Int(fresh_name('ub')), f(kap)) for f in sel.src]
    body2 = z3.substitute(body, *[(f, b) for b, f in base])
    bv = [b for b, _ in base]
    kterms = [(intt(p)) for j, k in enumerate(ks) if j != pos for p in (k[0].parts if isinstance(k[0], PIx) else [k[0]]) if not isinstance(p, int)]
    nd = dims[:pos] + sel.dims + dims[pos + 1:]
    ns = len(sel.dims)
    def cl(*ix):
        mid = ix[pos:pos + ns]
        vals = [intt(p) for i, d in zip(mid, sel.dims) for p in ((lambda x: x.parts if isinstance(x, PIx) else [x])(nix(i, d)))]
        others = [intt(p) for i, d in zip(ix[:pos] + ix[pos + ns:], dims[:pos] + dims[pos + 1:]) for p, c in zip((lambda x: x.parts if isinstance(x, PIx) else [x])(nix(i, d)), comps(d)) if not (isinstance(c, int) and c == 1)]
        b = z3.substitute(body2, *(list(zip(bv, vals)) + list(zip(kterms, others))))
        return t_imp(sel.mask(mid), b)
    return nd, cl

class NotClonable(Exception): pass
def clone(t, sub, mark, memo=None):
    """t with the constants of `sub` (id -> term) replaced; quantifiers created after counter value `mark` are copied along"""
    if isinstance(t, bool): return t
    memo = {} if memo is None else memo
    order, stack, leaves = [], [t], {}
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = x.decl().name()
            h, _, num = nm.rpartition('!')
            if x.num_args() == 0 and x.get_id() in sub: leaves[x.get_id()] = (x, sub[x.get_id()])
            elif h and num.isdigit() and int(num) > mark:
                if x.num_args(): raise NotClonable(nm)
                leaves[x.get_id()] = (x, _clone_proxy(x, nm, sub, mark, memo))
        stack.extend(x.children())
    if not leaves: return t
    return simp(z3.substitute(t, *leaves.values()))
def _clone_proxy(x, nm, sub, mark, memo):
    if nm in memo: return memo[nm]
    for s in REG.dynamic.get(nm, ()):
        if isinstance(s, QAll) and s.own == nm:
            dims = [mkdim(clone(intt(dterm(d)), sub, mark, memo)) if isinstance(d, Num) and not d.parts else d for d in s.dims]
            for d in s.dims:
                if isinstance(d, Num) and d.parts:
                    for p in d.parts:
                        if not isinstance(p, int) and not z3.eq(intt(dterm(p)), clone(intt(dterm(p)), sub, mark, memo)): raise NotClonable(nm)
            b = t_bool(s.body(s.sk))
            own = [p for i in s.sk for p in (i.parts if isinstance(i, PIx) else [i])]
            clone(b, {**sub, **{p.get_id(): p for p in own if not isinstance(p, int)}}, mark)      # may raise
            def cl(*ix):
                parts = [p for i, d in zip(ix, dims) for p in (lambda x: x.parts if isinstance(x, PIx) else [x])(nix(i, d))]
                return clone(b, {**sub, **{p.get_id(): intt(x) for p, x in zip(own, parts) if not isinstance(p, int)}}, mark)
            q = QAll(dims, cl)
            memo[nm] = q.q
            return q.q
    raise NotClonable(nm)
def exists_t(dims, closure):
    return t_not(forall_t(dims, lambda *ix: t_not(closure(*ix))))

class QRed:
    """min/max over symbolic dims"""
    def __init__(self, dims, closure, op):
        self.dims, self.closure, self.op = dims, closure, op
        pr = [skolem(d) for d in dims]
        e = self.probe = lift(closure(*[p[0] for p in pr]))
        self.pcond = t_and(*[p[1] for p in pr])
        self.finite = not e.special()
        self.kind = lift(e).kind
        self.m = fresh_int(op) if self.kind == 'i' else fresh_real(op)
        self.sk = []
        cond = True
        for d in dims:
            s, c = skolem(d)
            self.sk.append(s)
            cond = t_and(cond, c)
        self.skcond = cond
        self.cdims = [c for d in dims for c in comps(d)]
        REG.add_dynamic(str(self.m), self)
    def val(self, idxs):
        e = lift(self.closure(*idxs))
        if e.special() and not self.finite:
            raise DeadValue('min/max reduction of values that may be nan/inf over a symbolic axis')
        return e.fin if self.kind == 'i' else e.r()
    def num(self):
        """the reduction; its nan/inf flags are unconstrained unless every reduced value is finite here"""
        if not self.finite:
            f = self.probe.isfin()
            r = [t for t in sym.index_ranges(f)]
            from . import prover
            self.finite = prover.prove(f, ctx().full_pc() + r + [t_bool(self.pcond)], timeout=4000, rounds=3).ok
        if not self.finite:
            self.flags = fresh_bool('nan'), fresh_bool('pinf'), fresh_bool('ninf')
            self.wit = [[skolem(d) for d in self.dims] for _ in range(3)]
            for b in self.flags: REG.add_dynamic(str(b), self)
            return Num(self.m, *self.flags, 'f', True)
        return Num(self.m, kind=self.kind, np=True)
    def special_lemmas(self, idxs, rng):
        """one element of a reduction whose elements may be nan/inf: nan wins, then the infinity the operation prefers"""
        e = lift(self.closure(*idxs))
        nan, pinf, ninf = self.flags
        win, lose, ewin, elose = (ninf, pinf, e.ninf, e.pinf) if self.op == 'min' else (pinf, ninf, e.pinf, e.ninf)
        fin = e.isfin()
        v = e.r()
        ok = t_and(t_not(nan), t_not(win))
        return [t_imp(rng, t_imp(e.nan, nan)), t_imp(rng, t_imp(t_and(ewin, t_not(nan)), win)), t_imp(t_and(rng, lose), elose),
                t_imp(t_and(rng, fin, ok), t_and(t_not(lose), self.m <= v if self.op == 'min' else self.m >= v))]
    def special_base(self):
        nan, pinf, ninf = self.flags
        win, lose = (ninf, pinf) if self.op == 'min' else (pinf, ninf)
        def at(sks):
            return t_and(*[c for _, c in sks]), lift(self.closure(*[s for s, _ in sks]))
        nonempty = t_and(*[intt(dterm(d)) > 0 for d in self.dims])
        c0, e0 = at(self.wit[0]); c1, e1 = at(self.wit[1]); c2, e2 = at(self.wit[2])
        return [t_imp(nan, t_and(c0, e0.nan, t_not(pinf), t_not(ninf))), t_imp(win, t_and(c1, e1.ninf if self.op == 'min' else e1.pinf, t_not(lose))),
                t_imp(t_and(nonempty, t_not(nan), t_not(win), t_not(lose)), t_and(c2, e2.isfin(), self.m == e2.r()))]
    def lemmas(self, inst):
        done = inst.done_dyn.setdefault(('qred', id(self)), set())
        out = []
        nonempty = t_and(*[intt(dterm(d)) > 0 for d in self.dims])
        if 'sk' not in done:
            done.add('sk')
            if not self.finite: out += [f for f in self.special_base() if f is not True]
            else: out.append(t_imp(nonempty, t_and(self.skcond, self.m == self.val(self.sk))))
        choices = [list(range(c)) if isinstance(c, int) and c <= 8 else inst.terms(domkey(c), inst.merged) for c in self.cdims]
        for combo in itertools.product(*choices):
            key = tuple(ikey(t) for t in combo)
            if key in done:
                continue
            done.add(key)
            vals, idxs, p = list(combo), [], 0
            for d in self.dims:
                k = len(comps(d))
                idxs.append(build_ix(d, vals[p:p + k]))
                p += k
            rng = t_and(*[inrange(i, d) for i, d in zip(idxs, self.dims)])
            if rng is False:
                continue
            if not self.finite:
                out += [f for f in self.special_lemmas(idxs, rng) if f is not True]
                continue
            v = self.val(idxs)
            out.append(t_imp(rng, self.m <= v if self.op == 'min' else self.m >= v))
        return out

class VecFun:
    """norm / sum / prod of a vector over a symbolic axis: uninterpreted, with comparison lemmas"""
    all = {}
    def __init__(self, kind, dim, closure):
        self.kind, self.dim, self.closure = kind, dim, closure
        self.v = fresh_real(kind)
        self.name = str(self.v)
        self.cache = {}
        self.pairsk = {}
        self.zero = skolem(dim)
        VecFun.all[self.name] = self
        REG.add_dynamic(self.name, self)
    def val(self, i):
        k = ikey(i)
        if k not in self.cache:
            e = lift(self.closure(i))
            if e.special():
                raise Unsupported('%s over values that may be nan/inf' % self.kind)
            self.cache[k] = (e.r(), i)
        return self.cache[k][0]
    def lemmas(self, inst):
        done = inst.done_dyn.setdefault(('vec', self.name), set())
        out = []
        ab = lambda t: z3.If(t >= 0, t, -t)
        if 'base' not in done:
            done.add('base')
            sk, c = self.zero
            if self.kind == 'norm':
                out.append(self.v >= 0)
                out.append(t_or(self.v == 0, t_and(c, self.val(sk) != 0)))
            elif self.kind == 'sum':
                out.append(t_or(self.v == 0, t_and(c, self.val(sk) != 0)))
                self.neg = sk2, c2 = skolem(self.dim)
                out.append(t_or(self.v >= 0, t_and(c2, self.val(sk2) < 0)))
            elif self.kind == 'prod':
                sk2, c2 = skolem(self.dim)
                out.append(t_or(self.v > 0, t_and(c2, self.val(sk2) <= 0)))
                # v = v[0] * v[1]^(n-1) when the tail is constant (or v[0]^n)
                n = intt(dterm(self.dim))
                p = POW(self.val(1), real(n - 1))
                REG.funcdom.setdefault('pow', (None, None))
                sk3, c3 = skolem(self.dim)
                out.append(z3.Implies(n >= 2, t_bool(t_or(self.v == self.val(0) * p, t_and(c3, iterm(sk3) >= 1, self.val(sk3) != self.val(1))))))
                out.append(z3.Implies(n == 1, self.v == self.val(0)))
        if self.kind == 'norm':
            for c in [domkey(x) for x in comps(self.dim)] if len(comps(self.dim)) == 1 else []:
                for t in inst.terms(c, inst.merged):
                    k = ('t', ikey(t))
                    if k in done:
                        continue
                    done.add(k)
                    rng = inrange(t, self.dim)
                    if rng is False:
                        continue
                    out.append(t_imp(rng, ab(self.val(t)) <= self.v))
        if self.kind == 'sum' and len(comps(self.dim)) == 1:
            # a sum of non-negative terms is at least each of them
            sk2, c2 = self.neg
            for t in inst.terms(domkey(self.dim), inst.merged) + [0]:
                k = ('t', ikey(t))
                if k in done: continue
                done.add(k)
                rng = inrange(t, self.dim)
                if rng is False: continue
                out.append(t_imp(rng, t_or(self.v >= self.val(t), t_and(c2, self.val(sk2) < 0))))
        # pair lemmas with every other function of the same kind that occurs
        for n in list(inst.facts.names):
            o = VecFun.all.get(n)
            if o is None or o is self or o.kind != self.kind:
                continue
            k = ('p', n)
            if k in done:
                continue
            done.add(k)
            if domkey(o.dim) != domkey(self.dim):
                sizeq = intt(dterm(o.dim)) == intt(dterm(self.dim))
            else:
                sizeq = True
            if n not in self.pairsk:
                self.pairsk[n] = skolem(self.dim)
            sk, c = self.pairsk[n]
            if self.kind == 'norm':
                out.append(t_imp(sizeq, t_or(self.v <= o.v, t_and(c, ab(self.val(sk)) > ab(o.val(sk))))))
            elif self.kind == 'sum':
                out.append(t_imp(sizeq, t_or(self.v <= o.v, t_and(c, self.val(sk) > o.val(sk)))))
            else:
                out.append(t_imp(sizeq, t_or(self.v == o.v, t_and(c, self.val(sk) != o.val(sk)))))
        return out

# ----------------------------------------------------------------------------- dtype
def dtype_kind(ty):
    if ty is None:
        return 'f'
    if isinstance(ty, DType):
        return ty.k
    n = getattr(ty, '_vc_dtype', None)
    if n:
        return n
    if ty is int:
        return 'i'
    if ty is float:
        return 'f'
    if ty is bool:
        return 'b'
    if isinstance(ty, str):
        if ty.startswith(('int', 'uint', 'i', 'u')):
            return 'i'
        if ty.startswith(('float', 'f', 'd')):
            return 'f'
        if ty.startswith(('bool', '?')):
            return 'b'
        if ty in ('object', 'O'):
            return 'o'
    if ty is object:
        return 'o'
    raise Unsupported('dtype %r' % (ty,))

class DType:
    def __init__(self, k, name):
        self.k, self.name = k, name
    def __eq__(self, o):
        try:
            return dtype_kind(o) == self.k
        except Unsupported:
            return False
    def __hash__(self):
        return hash(self.k)
    def __call__(self, x):
        if isinstance(x, Arr):
            return x.astype(self)
        n = lift(x)
        return n.astype(self)
    def __repr__(self):
        return self.name
    @property
    def kind(self):
        return self.k

class Fn:
    __slots__ = ('f', 'cache', 'dims')
    def __init__(self, f, dims=None):
        self.f, self.cache, self.dims = f, {}, dims
    def __call__(self, idx):
        k = tuple(ikey(i) for i in idx)
        h = self.cache.get(k)
        items = STACK.items
        if h is not None:
            # an entry computed on another path may rest on that path's decisions
            if h[2] is None or any(c is h[2] for c in items):
                return h[0]
        # the element function of an array is only asked for elements in range
        sym.RANGES.append((idx, self.dims))
        try:
            v = self.f(idx)
        finally:
            sym.RANGES.pop()
        self.cache[k] = (v, idx, items[-1] if items else None)
        return v

def elem_cast(v, kind):
    if kind == 'b':
        if isinstance(v, (bool, B)):
            return v
        return mkb(as_t(v))
    if kind == 'o':
        return v
    n = lift(v)
    if n is None:
        raise Unsupported('array element %r' % type(v))
    if kind == 'i':
        n = to_int(n, np=True)
        if not n.np:
            n = Num(n.fin, kind='i', np=True)
        return n
    if n.kind == 'i' or not n.np:
        n = Num(n.r(), n.nan, n.pinf, n.ninf, 'f', True)
    return n

class SymStr:
    """one of several constant strings"""
    table = {}
    def __init__(self, t): self.t = simp(t)
    @staticmethod
    def code(s):
        if isinstance(s, SymStr): return s.t
        return z3.IntVal(SymStr.table.setdefault(str(s), len(SymStr.table)))
    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)): return False
        return mkb(simp(self.t == SymStr.code(o)))
    def __ne__(self, o):
        r = self == o
        return mkb(t_not(as_t(r)))
    def __hash__(self): return id(self)
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('string method %s' % n)

def e_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
        return mkb(t_iteb(c, as_t(a), as_t(b)))
    if numlike(a) and numlike(b):
        return n_ite(c, lift(a), lift(b))
    if a is b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(e_ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Seq) and isinstance(b, Seq):
        return Seq(mkdim(n_ite(c, lift(a.n), lift(b.n))), lambda k: e_ite(c, a.at(k), b.at(k)), tup=a.tup)
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.shape) == len(b.shape):
        fa, fb = a.snap(), b.snap()
        sh = []
        for x, y in zip(a.shape, b.shape):
            if domkey(x) == domkey(y):
                sh.append(x)
            else:
                raise Unsupported('merge of differently shaped arrays')
        return Arr(tuple(sh), lambda ix: e_ite(c, fa(ix), fb(ix)), a.kind if a.kind == b.kind else 'f')
    if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
        if isinstance(a, str) and isinstance(b, str) and a == b: return a
        return SymStr(z3.If(c, SymStr.code(a), SymStr.code(b)))
    if a == b:
        return a
    raise Unsupported('merge of %r and %r' % (type(a), type(b)))

def dim_eq_term(a, b):
    a, b = dterm(a), dterm(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return simp(intt(a) == intt(b))

def same_dim(a, b):
    """decide (forking if needed) whether two dims are equal"""
    if a is b:
        return True
    t = dim_eq_term(a, b)
    if isinstance(t, bool):
        return t
    return decide(t)

def is_one(d):
    if isinstance(d, int):
        return d == 1
    return False

def bcast_dims(a, b):
    if is_one(a):
        return b
    if is_one(b):
        return a
    if same_dim(a, b):
        if isinstance(a, int):
            return a
        if isinstance(b, int):
            return b
        if b.parts and not a.parts:
            return b
        return a
    # a symbolic size may still be 1
    if not isinstance(a, int) and decide(intt(dterm(a)) == 1):
        return b
    if not isinstance(b, int) and decide(intt(dterm(b)) == 1):
        return a
    raise ValueError('operands could not be broadcast together')

def bcast_shapes(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for ax in range(n):
        d = 1
        for s in shapes:
            p = ax - (n - len(s))
            if p >= 0:
                d = bcast_dims(d, s[p])
        out.append(d)
    return tuple(out)

def bmap(shape, out_shape):
    """index mapper from broadcast output index to operand index"""
    off = len(out_shape) - len(shape)
    flags = []
    for p, d in enumerate(shape):
        od = out_shape[p + off]
        if is_one(d) and not is_one(od):
            flags.append(0)
        elif d is od or domkey(d) == domkey(od):
            flags.append(1)
        else:
            t = dim_eq_term(d, od)
            flags.append(1 if t is True or decide(t) else 0)
    def m(idx):
        return tuple(nix(idx[p + off], d) if flags[p] else nix(0, d) for p, d in enumerate(shape))
    return m

class Arr:
    _is_arr = True
    __array_priority__ = 200
    def __init__(self, shape, fn, kind='f', base=None, imap=None, owner=None):
        self.shape_ = tuple(mkdim(d) for d in shape)
        self._fn = fn if isinstance(fn, Fn) or fn is None else Fn(fn, self.shape_)
        self.kind = kind
        self._base, self._imap = base, imap
        self._ver = 0
        self._selcache = None
        self.meta = {}
        if STACK.items:
            eng = STACK.top.engine
            if eng is not None:
                eng.register_obj(self)

    # -- basics
    @property
    def shape(self):
        return self.shape_
    @property
    def ndim(self): return len(self.shape_)
    @property
    def size(self):
        r = pdim(*self.shape_) if self.shape_ else 1
        return r
    @property
    def dtype(self): return DType(self.kind, {'f': 'float64', 'i': 'int64', 'b': 'bool', 'o': 'object'}[self.kind])
    @property
    def T(self): return self.transpose()
    @property
    def flat(self): return self.flatten()

    _noread = False
    def snap(self):
        if self._noread:
            raise Unsupported('a loop iteration reads an array that other iterations write')
        if self._base is not None:
            bf, m = self._base.snap(), self._imap
            return Fn(lambda idx: bf(m(idx)), self.shape_)
        return self._fn

    def at(self, *idx):
        return self.snap()(tuple(nix(i, d) for i, d in zip(idx, self.shape_)))

    def elem(self, *idx):
        return self.at(*idx)

    def _scalar(self):
        idx = []
        for d in self.shape_:
            if not is_one(d):
                t = dim_eq_term(d, 1)
                if not (t is True or (t is not False and decide(t))):
                    raise ValueError('The truth value of an array with more than one element is ambiguous')
            idx.append(0)
        return self.at(*idx)

    def __bool__(self):
        return bool(self._scalar())
    def _truth_term(self):
        return as_t(self._scalar())
    def item(self, *a):
        return self._scalar() if not a else self.at(*a)
    def __int__(self): return int(self._scalar())
    def __float__(self): return float(self._scalar())
    def __len__(self):
        if not self.shape_:
            raise TypeError('len() of unsized object')
        d = self.shape_[0]
        if isinstance(d, int):
            return d
        raise Unsupported('native len() of a symbolic array')
    def sym_len(self):
        if not self.shape_:
            raise TypeError('len() of unsized object')
        return self.shape_[0]
    def __contains__(self, x):
        """numpy: some element equals x"""
        if isinstance(x, (Arr, Seq)): raise Unsupported('array membership of a sequence')
        f = self.snap()
        return bool(mkb(exists_t(list(self.shape_), lambda *ix: as_t(o_eq(f(tuple(nix(iterm(i), d) for i, d in zip(ix, self.shape_))), lift(x))))))
    def __iter__(self):
        d = self.shape_[0] if self.shape_ else None
        if d is None:
            raise TypeError('iteration over a 0-d array')
        if isinstance(d, int):
            return iter([self[i] for i in range(d)])
        raise Unsupported('native iteration over a symbolic axis')
    def tolist(self):
        if len(self.shape_) == 0:
            return self.at()
        d = self.shape_[0]
        if isinstance(d, int):
            return [x.tolist() if isinstance(x, Arr) else x for x in (self[i] for i in range(d))]
        if self.ndim == 1:
            f = self.snap()
            return Seq(d, lambda k: f((nix(k, d),)))
        return Seq(d, lambda k: self[inum(k)].tolist())
    def __hash__(self):
        return id(self)

    # -- mutation
    def _write(self, cond, val):
        """self[idx] = val(idx) where cond(idx)"""
        if self._base is not None:
            b = self._base
            inv = self.meta.get('inv')
            if inv is None:
                raise Unsupported('write through this kind of view')
            m = self._imap
            def bcond(bidx):
                c, vi = inv(bidx)
                return t_and(c, cond(vi)) if c is not False else False
            def bval(bidx):
                c, vi = inv(bidx)
                return val(vi)
            b._write(bcond, bval)
            return
        old = self._fn
        kind = self.kind
        def fn(idx):
            c = cond(idx)
            c = simp(c) if not isinstance(c, bool) else c
            if c is False:
                return old(idx)
            v = elem_cast(val(idx), kind)
            if c is True:
                return v
            return e_ite(c, v, old(idx))
        st = [self._fn, self._ver, self._selcache]
        new = Fn(fn)
        if STACK.items:
            cell = [new, self._ver + 1, None]
            def swap(self=self, cell=cell):
                cur = [self._fn, self._ver, self._selcache]
                self._fn, self._ver, self._selcache = cell
                cell[:] = cur
            swap()
            STACK.top.log_undo(swap, self, ('write', cond, val))
        else:
            self._fn, self._ver, self._selcache = new, self._ver + 1, None

    def _replace(self, fn):
        """havoc / set whole content"""
        b = self
        if b._base is not None:
            raise Unsupported('havoc of a view')
        cell = [fn if isinstance(fn, Fn) else Fn(fn), None]
        def swap(b=b, cell=cell):
            cur = [b._fn, b._selcache]
            b._fn, b._selcache = cell
            cell[:] = cur
        swap()
        if STACK.items:
            STACK.top.log_undo(swap, b, ('replace',))

    def root(self):
        b = self
        while b._base is not None:
            b = b._base
        return b

    # -- elementwise
    def _ew(self, o, f, kind=None, rev=False):
        if isinstance(o, (list, tuple, Seq)):
            o = asarr(o)
        if isinstance(o, Arr):
            a, b = (o, self) if rev else (self, o)
            return ew(f, [a, b], kind)
        if o is None or isinstance(o, str):
            return NotImplemented
        x = o
        sf = self.snap()
        if rev:
            return Arr(self.shape_, lambda ix: f(x, sf(ix)), kind or rkind(f, self.kind, okind(x)))
        return Arr(self.shape_, lambda ix: f(sf(ix), x), kind or rkind(f, self.kind, okind(x)))

    def __add__(self, o): return self._ew(o, o_add)
    def __radd__(self, o): return self._ew(o, o_add, rev=True)
    def __sub__(self, o): return self._ew(o, o_sub)
    def __rsub__(self, o): return self._ew(o, o_sub, rev=True)
    def __mul__(self, o): return self._ew(o, o_mul)
    def __rmul__(self, o): return self._ew(o, o_mul, rev=True)
    def __truediv__(self, o): return self._ew(o, o_div, 'f')
    def __rtruediv__(self, o): return self._ew(o, o_div, 'f', rev=True)
    def __floordiv__(self, o): return self._ew(o, o_fdiv)
    def __rfloordiv__(self, o): return self._ew(o, o_fdiv, rev=True)
    def __mod__(self, o): return self._ew(o, o_mod)
    def __rmod__(self, o): return self._ew(o, o_mod, rev=True)
    def __pow__(self, o): return self._ew(o, o_pow)
    def __rpow__(self, o): return self._ew(o, o_pow, rev=True)
    def __lt__(self, o): return self._ew(o, o_lt, 'b')
    def __le__(self, o): return self._ew(o, o_le, 'b')
    def __gt__(self, o): return self._ew(o, o_gt, 'b')
    def __ge__(self, o): return self._ew(o, o_ge, 'b')
    def __eq__(self, o):
        if o is None:
            return self._ewc(False)
        return self._ew(o, o_eq, 'b')
    def __ne__(self, o):
        if o is None:
            return self._ewc(True)
        return self._ew(o, o_ne, 'b')
    def _ewc(self, v):
        if self.kind == 'o':
            sf = self.snap()
            return Arr(self.shape_, lambda ix: (sf(ix) is None) != v, 'b')
        return Arr(self.shape_, lambda ix: v, 'b')
    def __and__(self, o): return self._ew(o, o_and, 'b')
    def __rand__(self, o): return self._ew(o, o_and, 'b', rev=True)
    def __or__(self, o): return self._ew(o, o_or, 'b')
    def __ror__(self, o): return self._ew(o, o_or, 'b', rev=True)
    def __xor__(self, o): return self._ew(o, o_xor, 'b')
    __rxor__ = __xor__
    def __invert__(self):
        if self.kind != 'b':
            raise Unsupported('~ of non-boolean array')
        return self._map(lambda x: mkb(t_not(as_t(x))), 'b')
    def __neg__(self): return self._map(lambda x: -lift(x), self.kind)
    def __pos__(self): return self
    def __abs__(self): return self._map(lambda x: abs(lift(x)), self.kind)
    def _map(self, f, kind):
        sf = self.snap()
        return Arr(self.shape_, lambda ix: f(sf(ix)), kind)
    def _inplace(self, r):
        r = asarr(r)
        if self.kind == 'i' and r.kind == 'f':
            raise TypeError('Cannot cast ufunc output from float64 to int64')
        if self.kind == 'b' and r.kind != 'b':
            raise TypeError('Cannot cast ufunc output to bool')
        m = bmap(r.shape_, self.shape_)
        if len(r.shape_) > len(self.shape_):
            raise ValueError('non-broadcastable output operand')
        rf = r.snap()
        for p, d in enumerate(r.shape_):
            if not is_one(d) and is_one(self.shape_[p + len(self.shape_) - len(r.shape_)]):
                raise ValueError('non-broadcastable output operand')
        self._write(lambda ix: True, lambda ix: rf(m(ix)))
        return self
    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)
    def __iand__(self, o): return self._inplace(self & o)
    def __ior__(self, o): return self._inplace(self | o)
    def __ixor__(self, o): return self._inplace(self ^ o)
    def __matmul__(self, o):
        from .nps import matmul
        return matmul(self, o)
    def __rmatmul__(self, o):
        from .nps import matmul
        return matmul(o, self)

    # -- indexing
    def __getitem__(self, key):
        return getitem(self, key)
    def __setitem__(self, key, v):
        setitem(self, key, v)

    # -- shape ops
    def copy(self, *a, **k):
        sf = self.snap()
        return Arr(self.shape_, sf, self.kind)
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()
    def astype(self, ty, **k):
        kd = dtype_kind(ty)
        if kd == 'i' and self.kind == 'f':
            return self._map(lambda x: to_int(lift(x), np=True), 'i')
        return self._map(lambda x: elem_cast(x, kd), kd)
    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = axes[0]
        n = self.ndim
        if not axes:
            axes = tuple(reversed(range(n)))
        axes = [a % n for a in axes]
        shape = tuple(self.shape_[a] for a in axes)
        invp = [axes.index(i) for i in range(n)]
        r = Arr(shape, None, self.kind, base=self, imap=lambda ix: tuple(ix[invp[i]] for i in range(n)))
        r.meta['inv'] = lambda bix: (True, tuple(bix[a] for a in axes))
        return r
    def swapaxes(self, a, b):
        n = self.ndim
        axes = list(range(n))
        axes[a % n], axes[b % n] = axes[b % n], axes[a % n]
        return self.transpose(axes)
    def reshape(self, *shape, order='C'):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)
    def flatten(self, order='C'):
        if order not in ('C', 'K', 'A'):
            raise Unsupported('flatten order')
        return reshape(self, (-1,)).copy()
    def ravel(self, order='C'): return self.flatten()
    def squeeze(self, axis=None):
        from .nps import squeeze
        return squeeze(self, axis)
    def repeat(self, n, axis=None):
        from .nps import repeat
        return repeat(self, n, axis)
    def view(self, *a):
        raise Unsupported('view')
    def fill(self, v):
        self._write(lambda ix: True, lambda ix: v)
    # -- reductions
    def all(self, axis=None, keepdims=False, **k): return red_bool(self, axis, 'all', keepdims)
    def any(self, axis=None, keepdims=False, **k): return red_bool(self, axis, 'any', keepdims)
    def min(self, axis=None, keepdims=False, **k): return red_minmax(self, axis, 'min', keepdims)
    def max(self, axis=None, keepdims=False, **k): return red_minmax(self, axis, 'max', keepdims)
    def sum(self, axis=None, keepdims=False, **k): return red_sum(self, axis, keepdims)
    def prod(self, axis=None, keepdims=False, **k): return red_prod(self, axis, keepdims)
    def mean(self, axis=None, keepdims=False, **k):
        from .nps import mean
        return mean(self, axis, keepdims=keepdims)
    def dot(self, o):
        from .nps import dot
        return dot(self, o)
    def cumsum(self, axis=None):
        from .nps import cumsum
        return cumsum(self, axis)
    def nonzero(self):
        from .nps import nonzero
        return nonzero(self)
    def clip(self, lo=None, hi=None, **k):
        from .nps import clip
        return clip(self, lo, hi)
    def __repr__(self):
        return 'Arr%s<%s>' % (tuple(str(dterm(d)) for d in self.shape_), self.kind)

# ---- element operators (work on Num/B/python scalars)
def _n(x): 
    n = lift(x)
    if n is None:
        raise Unsupported('numeric operand %r' % type(x))
    if not n.np:
        n = Num(n.fin, n.nan, n.pinf, n.ninf, n.kind, True)
    return n
def o_add(a, b):
    if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
        return mkb(t_or(as_t(a), as_t(b)))
    return n_add(_n(a), _n(b))
def o_sub(a, b): return n_sub(_n(a), _n(b))
def o_mul(a, b):
    if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
        return mkb(t_and(as_t(a), as_t(b)))
    return n_mul(_n(a), _n(b))
def o_div(a, b): return n_div(_n(a), _n(b))
def o_fdiv(a, b): return n_floordiv(_n(a), _n(b))
def o_mod(a, b): return n_mod(_n(a), _n(b))
def o_pow(a, b): return n_pow(_n(a), _n(b))
def o_lt(a, b): return n_lt(_n(a), _n(b))
def o_le(a, b): return n_le(_n(a), _n(b))
def o_gt(a, b): return n_lt(_n(b), _n(a))
def o_ge(a, b): return n_le(_n(b), _n(a))
def o_eq(a, b):
    if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
        x, y = as_t(a), as_t(b)
        if isinstance(x, bool): x, y = y, x
        if isinstance(y, bool):
            return mkb(x if y else t_not(x))
        return mkb(x == y)
    if not numlike(a) or not numlike(b):
        if isinstance(a, Seq):
            return a == b
        return a == b
    return n_eq(_n(a), _n(b))
def o_ne(a, b):
    r = o_eq(a, b)
    return mkb(t_not(as_t(r)))
def o_and(a, b):
    if not (isinstance(a, (bool, B)) and isinstance(b, (bool, B))):
        raise Unsupported('bitwise & on numbers')
    return mkb(t_and(as_t(a), as_t(b)))
def o_or(a, b):
    if not (isinstance(a, (bool, B)) and isinstance(b, (bool, B))):
        raise Unsupported('bitwise | on numbers')
    return mkb(t_or(as_t(a), as_t(b)))
def o_xor(a, b):
    x, y = as_t(a), as_t(b)
    if isinstance(x, bool): x, y = y, x
    if isinstance(y, bool):
        return mkb(t_not(x) if y else x)
    return mkb(z3.Xor(x, y))
def o_land(a, b): return mkb(t_and(as_t(a), as_t(b)))
def o_lor(a, b): return mkb(t_or(as_t(a), as_t(b)))

def okind(x):
    if isinstance(x, (bool, B)):
        return 'b'
    if isinstance(x, int) or (isinstance(x, Num) and x.kind == 'i'):
        return 'i'
    return 'f'

def rkind(f, *kinds):
    if f is o_div:
        return 'f'
    if f in (o_lt, o_le, o_gt, o_ge, o_eq, o_ne, o_and, o_or, o_xor, o_land, o_lor):
        return 'b'
    if 'o' in kinds:
        return 'o'
    if 'f' in kinds:
        return 'f'
    if 'i' in kinds:
        return 'i'
    return 'b' if f in (o_add, o_mul) else 'i'

def ew(f, arrs, kind=None):
    arrs = [asarr(a) for a in arrs]
    shape = bcast_shapes([a.shape_ for a in arrs])
    maps = [bmap(a.shape_, shape) for a in arrs]
    snaps = [a.snap() for a in arrs]
    kind = kind or rkind(f, *[a.kind for a in arrs])
    return unwrap0(Arr(shape, lambda ix: f(*[s(m(ix)) for s, m in zip(snaps, maps)]), kind))

def unwrap0(a):
    """numpy turns 0-d results into scalars"""
    if isinstance(a, Arr) and a.ndim == 0:
        return a.at()
    return a

# ---- construction
def const_arr(shape, v, kind):
    v = elem_cast(v, kind)
    return Arr(shape, lambda ix: v, kind)

class Seq:
    """symbolic-length sequence (list / tuple / range / zip ... of symbolic length)"""
    _is_seq = True
    def __init__(self, n, fn, tup=False, ints=False):
        self.n = mkdim(n)
        self.fn = Fn(lambda ix: fn(ix[0]), (self.n,))
        self.tup = tup
        self.ints = ints
        self.origin = None
    def at(self, k):
        return self.fn((nix(k, self.n),))
    def sym_len(self): return self.n
    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise Unsupported('native len() of a symbolic sequence')
    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.at(i) for i in range(self.n)])
        raise Unsupported('native iteration over a symbolic sequence')
    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, n, step = slice_norm(i, self.n)
            s = Seq(n, lambda k: self.at(addk(lo, k, step)), self.tup)
            return s
        if isinstance(i, Arr):
            i = i._scalar()
        i = index_check(i, self.n)
        return self.at(i)
    def __add__(self, o):
        return seq_concat([self, o])
    def __radd__(self, o):
        return seq_concat([o, self])
    def __mul__(self, m):
        return seq_repeat(self, m)
    def __eq__(self, o):
        if isinstance(o, (tuple, list)):
            o = as_seq(o)
        if not isinstance(o, Seq):
            return False
        t = dim_eq_term(self.n, o.n)
        if t is False:
            return False
        return mkb(t_and(t, forall_t([self.n], lambda k: as_t(val_eq(self.at(k), o.at(k))))))
    def __ne__(self, o):
        r = self == o
        return mkb(t_not(as_t(r)))
    def __hash__(self):
        return id(self)
    def __bool__(self):
        if isinstance(self.n, int):
            return self.n > 0
        return decide(intt(dterm(self.n)) > 0)
    def __contains__(self, x):
        return bool(mkb(exists_t([self.n], lambda k: as_t(val_eq(self.at(k), x)))))
    def __deepcopy__(self, memo):
        f = self.fn
        return Seq(self.n, lambda k: f((k,)), self.tup)
    __copy__ = lambda self: self.__deepcopy__(None)
    def copy(self): return self.__deepcopy__(None)
    def __repr__(self):
        return 'Seq(n=%s)' % (dterm(self.n),)

class JList(Seq):
    """a Python list: mutable, possibly of symbolic length; every mutation is journaled"""
    _is_jlist = True
    def __init__(self, items=()):
        self.tup = False
        self.ints = False
        self.origin = None
        self.items = None
        self.seq = None
        if isinstance(items, Seq) and not isinstance(items, JList):
            if isinstance(items.n, int) and items.n <= SMALL:
                self.items = [items.at(i) for i in range(items.n)]
            else:
                self.seq = items
        elif isinstance(items, JList):
            self.items = list(items.items) if items.items is not None else None
            self.seq = items.seq
        else:
            self.items = list(items)
        if STACK.items:
            eng = STACK.top.engine
            if eng is not None:
                eng.register_obj(self)
    _noread = False
    @property
    def n(self):
        if self._noread:
            raise Unsupported('a loop iteration reads a list that other iterations extend')
        return len(self.items) if self.items is not None else self.seq.n
    @property
    def fn(self):
        f = self.frozen()
        return f.fn
    def frozen(self):
        if self._noread:
            raise Unsupported('a loop iteration reads a list that other iterations extend')
        return self._frozen()
    def _frozen(self):
        if self.items is not None:
            lst = list(self.items)
            return Seq(len(lst), lambda k: pick(lst, k))
        return self.seq
    def at(self, k):
        if self.items is not None:
            k = iterm(k)
            if isinstance(k, int):
                return self.items[k]
            return pick(self.items, k)
        return self.seq.at(k)
    def __len__(self):
        if self.items is not None:
            return len(self.items)
        return Seq.__len__(self)
    def __iter__(self):
        if self.items is not None:
            return iter(self.items)
        return Seq.__iter__(self)
    def __bool__(self):
        if self.items is not None:
            return bool(self.items)
        return Seq.__bool__(self)
    def __getitem__(self, i):
        if self.items is not None and isinstance(i, int):
            return self.items[i]
        if self.items and not isinstance(i, slice) and not any(numlike(x) or isinstance(x, (bool, B, Seq, Arr, tuple)) for x in self.items):
            t = index_check(i._scalar() if isinstance(i, Arr) else i, len(self.items))      # entries with no common form: one path per index
            for j, x in enumerate(self.items[:-1]):
                if decide(t_bool(simp(intt(iterm(t)) == j))): return x
            return self.items[-1]
        r = Seq.__getitem__(self.frozen(), i)
        return JList(r) if isinstance(i, slice) else r
    def __hash__(self):
        return id(self)
    def __add__(self, o):
        if not isinstance(o, (list, Seq)):
            return NotImplemented
        return JList(seq_concat([self, o]))
    def __radd__(self, o):
        return JList(seq_concat([o, self]))
    def __mul__(self, m):
        return JList(seq_repeat(self, m))
    __rmul__ = __mul__
    def _set(self, items, seq, what):
        cell = [items, seq]
        def swap(self=self, cell=cell):
            cur = [self.items, self.seq]
            self.items, self.seq = cell
            cell[:] = cur
        swap()
        if STACK.items:
            STACK.top.log_undo(swap, self, what)
    def append(self, v):
        self._extend([v], ('append', Seq(1, lambda k: v)))
    def extend(self, o):
        s = as_seq(o) if isinstance(o, (list, tuple, Seq, Arr)) or hasattr(o, '_as_seq') else as_seq(list(o))
        if isinstance(s.n, int) and s.n <= SMALL:
            self._extend([s.at(i) for i in range(s.n)], ('append', s))
        else:
            self._set(None, seq_concat([self._frozen(), s]), ('append', s))
    def _extend(self, lst, what):
        if self.items is not None:
            self._set(self.items + lst, None, what)
        else:
            self._set(None, seq_concat([self.seq, lst]), what)
    def __iadd__(self, o):
        self.extend(o)
        return self
    def _conc(self, op):
        if self.items is None:
            raise Unsupported('list.%s on a list of symbolic length' % op)
        return list(self.items)
    def insert(self, i, v):
        l = self._conc('insert'); l.insert(int(i), v); self._set(l, None, ('other',))
    def pop(self, i=-1):
        if self.items is None and i == -1:
            n = self.seq.n
            if not decide(intt(dterm(n)) > 0):
                raise IndexError('pop from empty list')
            s = self.seq
            v = s.at(simpi(intt(dterm(n)) - 1))
            self._set(None, Seq(mkdim(intt(dterm(n)) - 1), s.at), ('other',))
            return v
        l = self._conc('pop'); v = l.pop(int(i)); self._set(l, None, ('other',)); return v
    def remove(self, v):
        l = self._conc('remove')
        for j, x in enumerate(l):
            if mkb(as_t(val_eq(x, v))):
                del l[j]
                self._set(l, None, ('other',))
                return
        raise ValueError('list.remove(x): x not in list')
    def clear(self):
        self._set([], None, ('other',))
    def reverse(self):
        if self.items is not None:
            self._set(list(reversed(self.items)), None, ('other',))
        else:
            s = self.seq
            self._set(None, Seq(s.n, lambda k: s.at(sub_ix(s.n, k))), ('other',))
    def sort(self, **k):
        raise Unsupported('list.sort')
    def __setitem__(self, i, v):
        if isinstance(i, slice):
            l = self._conc('slice assignment'); l[i] = list(v); self._set(l, None, ('other',)); return
        if self.items is not None and lift(i).const() is not None:
            l = list(self.items); l[int(i)] = v; self._set(l, None, ('other',)); return
        s = self.frozen()
        t = index_check(i, s.n)
        self._set(None, Seq(s.n, lambda k: e_ite(eq_ix(k, t), v, s.at(k))), ('other',))
    def __delitem__(self, i):
        l = self._conc('del'); del l[i]; self._set(l, None, ('other',))
    def index(self, v):
        l = self._conc('index')
        for j, x in enumerate(l):
            if mkb(as_t(val_eq(x, v))):
                return j
        raise ValueError('not in list')
    def count(self, v):
        r = lift(0)
        for x in self._conc('count'):
            r = n_add(r, mkb(as_t(val_eq(x, v))).num() if isinstance(mkb(as_t(val_eq(x, v))), B) else lift(int(bool(as_t(val_eq(x, v))))))
        return r
    def __contains__(self, x):
        if self.items is not None:
            return bool(mkb(t_or(*[as_t(val_eq(y, x)) for y in self.items])))
        return Seq.__contains__(self.seq, x)
    def __eq__(self, o):
        if isinstance(o, (list, Seq)) and not getattr(o, 'tup', False):
            return Seq.__eq__(self.frozen(), as_seq(o))
        return False
    def copy(self): return JList(self)
    __copy__ = copy
    def __deepcopy__(self, memo): return JList(self)
    def __repr__(self):
        return 'JList(%r)' % (self.items if self.items is not None else self.seq,)

def val_eq(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, Seq) or isinstance(b, Seq):
        return a == b if isinstance(a, Seq) else b == a
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        return mkb(t_and(*[as_t(val_eq(x, y)) for x, y in zip(a, b)]))
    if isinstance(a, Arr) or isinstance(b, Arr):
        a, b = asarr(a), asarr(b)
        if len(a.shape_) != len(b.shape_):
            return False
        conds = [dim_eq_term(x, y) for x, y in zip(a.shape_, b.shape_)]
        if any(c is False for c in conds):
            return False
        fa, fb = a.snap(), b.snap()
        return mkb(t_and(*conds, forall_t(list(a.shape_), lambda *ix: as_t(o_eq(fa(ix), fb(tuple(nix(iterm(i), d) for i, d in zip(ix, b.shape_))))))))
    if numlike(a) and numlike(b):
        if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
            return o_eq(a, b)
        return n_eq(lift(a), lift(b))
    return a == b

def sub_ix(n, k):
    """n-1-k"""
    t = intt(dterm(n)) - 1 - intt(iterm(k))
    return simpi(t)

def addk(lo, k, step=1):
    k = iterm(k)
    if isinstance(lo, int) and lo == 0 and step == 1:
        return k
    if isinstance(k, int) and isinstance(lo, int):
        return lo + k * step
    return simpi(intt(lo) + intt(k) * step)

def as_seq(x):
    if isinstance(x, JList):
        return x.frozen()
    if isinstance(x, Seq):
        return x
    if isinstance(x, Arr):
        return Seq(x.shape_[0], in_spec(lambda k: x[inum(k)]))
    if hasattr(x, '_as_seq'):
        return x._as_seq()
    if isinstance(x, (list, tuple)):
        lst = list(x)
        return Seq(len(lst), lambda k: pick(lst, k), isinstance(x, tuple))
    raise Unsupported('sequence from %r' % type(x))

def pick(lst, k):
    """lst[k] for possibly symbolic k"""
    k = iterm(k)
    if isinstance(k, int):
        return lst[k]
    if not lst:
        raise Unsupported('pick from empty list')
    r = lst[-1]
    for j in range(len(lst) - 2, -1, -1):
        r = e_ite(k == j, lst[j], r)
    return r

def seq_concat(parts):
    parts = [as_seq(p) for p in parts]
    n = 0
    for p in parts:
        n = dim_add(n, p.n)
    def at(k):
        k = iterm(k)
        off = 0
        opts = []
        for p in parts:
            opts.append((off, p))
            off = term_add(off, dterm(p.n))
        # last part whose offset <= k
        r = dead = None
        for o, p in opts:
            if isinstance(p.n, int) and p.n == 0:
                continue
            if isinstance(k, int) and isinstance(o, int):
                if k < o:
                    continue
                if isinstance(p.n, int) and k >= o + p.n and p is not opts[-1][1]:
                    r = ('skip', r)
                    continue
            c = True if (isinstance(o, int) and o == 0) else simp(intt(k) >= intt(o))
            if c is False:
                continue
            kk = simpi(intt(k) - intt(o))
            if isinstance(kk, int) and kk < 0:
                continue
            try:
                v = p.at(kk)
            except DeadValue as e:
                dead = e
                continue
            if r is None or (isinstance(r, tuple) and len(r) == 2 and r[0] == 'skip' and r[1] is None):
                r = v
            else:
                if isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], str) and r[0] == 'skip':
                    r = r[1]
                r = v if c is True else e_ite(c, v, r)
        if r is None and dead is not None:
            raise dead
        return r
    s = Seq(n, at, all(p.tup for p in parts))
    s.parts = parts
    return s

def term_add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return simpi(intt(a) + intt(b))

def dim_add(a, b):
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return mkdim(term_add(dterm(a), dterm(b)))

def dim_max0(t):
    """max(t,0) as dim, dropping the max when provable"""
    t = simpi(t)
    if isinstance(t, int):
        return max(t, 0)
    if STACK.items and provably_not(t < 0):
        return mkdim(t)
    return mkdim(z3.If(t >= 0, t, z3.IntVal(0)))

def seq_repeat(x, n):
    """[a, b] * n"""
    s = as_seq(x)
    nt = lift(n)
    m = dim_max0(nt.fin)
    d = pdim(m, s.n)
    if isinstance(s.n, int) and s.n == 1:
        v = s.at(0)
        return Seq(m, lambda k: v, s.tup)
    def at(k):
        if isinstance(k, PIx):
            return s.at(k.parts[-1] if len(comps(s.n)) == 1 else PIx(k.parts[-len(comps(s.n)):], comps(s.n)))
        return s.at(int_divmod(k, dterm(s.n))[1])
    return Seq(d, at, s.tup)

SPECMODE = [0]
def in_spec(f):
    """closure of a specification quantifier: its bound variables are in range by construction"""
    def g(*a):
        SPECMODE[0] += 1
        try:
            return f(*a)
        finally:
            SPECMODE[0] -= 1
    return g

def index_check(i, d):
    if SPECMODE[0]:
        if isinstance(i, PIx): return i
        x = lift(i).fin if not isinstance(i, int) else i
        x = simpi(x)
        if isinstance(x, int) and x < 0:
            return simpi(intt(dterm(d)) + x)
        return x
    """python-style index normalisation with IndexError forks; returns term"""
    n = lift(i)
    if n is None:
        raise TypeError('invalid index')
    if n.kind != 'i':
        raise TypeError('list indices must be integers')
    t = simpi(n.fin)
    D = dterm(d)
    if isinstance(t, int):
        if t < 0:
            r = simpi(intt(D) + t)
            ok = simp(intt(D) >= -t)
        else:
            r = t
            ok = simp(intt(D) > t)
        if ok is not True and (ok is False or not decide(ok)):
            raise IndexError('index out of range')
        return r
    if decide(t >= 0):
        if not decide(t < intt(D)):
            raise IndexError('index out of range')
        return t
    if not decide(t >= -intt(D)):
        raise IndexError('index out of range')
    return simpi(t + intt(D))

def strided_len(num, step):
    """number of elements of a strided slice: ceil(num/step), 0 when num <= 0 (step > 0)"""
    REG.applemma['slicelen'] = _slicelen_lemma
    t = z3.Function('slicelen', z3.IntSort(), z3.IntSort(), z3.IntSort())(num, step)
    return t
def _slicelen_lemma(a):
    num, step = a.arg(0), a.arg(1)
    return [a >= 0, z3.Implies(z3.And(step > 0, num <= 0), a == 0), z3.Implies(z3.And(step > 0, num > 0), z3.And(a >= 1, step * (a - 1) < num, num <= step * a))]

def slice_norm(s, d):
    """-> (lo term, length dim, step int)"""
    step = 1 if s.step is None else lift(s.step).const()
    symstep = None
    if step is None:
        symstep = simpi(lift(s.step).fin)
        if not decide(symstep > 0): raise Unsupported('symbolic slice step that may not be positive')
        step = 0
    step = int(step)
    D = dterm(d)
    def clampi(v, default):
        if v is None:
            return default
        n = lift(v)
        if n.kind != 'i':
            raise TypeError('slice indices must be integers')
        t = simpi(n.fin)
        if isinstance(t, int) and isinstance(D, int):
            if t < 0:
                t += D
            return min(max(t, 0), D)
        # symbolic: decide
        if isinstance(t, int):
            if t < 0:
                t2 = simpi(intt(D) + t)
                return t2 if decide(intt(t2) >= 0) else 0
            if t == 0:
                return 0
            return t if decide(intt(D) >= t) else D
        if not decide(t >= 0):
            t = simpi(t + intt(D))
            if not decide(intt(t) >= 0):
                return 0
        return t if decide(intt(t) <= intt(D)) else D
    if symstep is not None:
        lo, hi = clampi(s.start, 0), clampi(s.stop, D)
        num = simpi(intt(hi) - intt(lo))
        return lo, mkdim(strided_len(intt(num), symstep)), symstep
    if step == 1:
        lo, hi = clampi(s.start, 0), clampi(s.stop, D)
        if isinstance(lo, int) and lo == 0 and hi is D and isinstance(d, Num):
            return 0, d, 1
        n = dim_max0(intt(hi) - intt(lo)) if not (isinstance(hi, int) and isinstance(lo, int)) else max(0, hi - lo)
        return lo, n, 1
    if isinstance(D, int) and (s.start is None or isinstance(s.start, int) or lift(s.start).const() is not None) and (s.stop is None or lift(s.stop).const() is not None):
        st = None if s.start is None else int(lift(s.start).const())
        sp = None if s.stop is None else int(lift(s.stop).const())
        r = range(*slice(st, sp, step).indices(D))
        return (r.start, len(r), step)
    if step > 1:
        lo, hi = clampi(s.start, 0), clampi(s.stop, D)
        # length = ceil((hi-lo)/step)
        num = intt(hi) - intt(lo)
        n = dim_max0(simpi((num + (step - 1)) / step))
        return lo, n, step
    if step == -1 and s.start is None and s.stop is None:
        return simpi(intt(D) - 1), d if not (isinstance(d, Num) and d.parts) else mkdim(D), -1
    raise Unsupported('slice %r' % (s,))

def asarr(x, kind=None):
    if isinstance(x, Arr):
        if kind and kind != x.kind:
            return x.astype(DType(kind, kind))
        return x
    if hasattr(x, '_as_arr'):
        return x._as_arr()
    if isinstance(x, (bool, B)):
        v = x if kind in (None, 'b') else elem_cast(x, kind)
        return Arr((), lambda ix: v, kind or 'b')
    if numlike(x):
        n = lift(x)
        k = kind or n.kind
        v = elem_cast(n, k)
        return Arr((), lambda ix: v, k)
    if isinstance(x, (list, tuple)):
        items = list(x)
        if not items:
            return Arr((0,), lambda ix: lift(0.0), kind or 'f')
        subs = [asarr(i) if not is_obj(i) else i for i in items]
        if any(not isinstance(s, Arr) for s in subs):
            lst = list(items)
            return Arr((len(lst),), lambda ix: pick(lst, ix[0]), 'o')
        nd = subs[0].ndim
        if any(s.ndim != nd for s in subs):
            raise ValueError('setting an array element with a sequence (inhomogeneous shape)')
        shape = []
        for ax in range(nd):
            d = subs[0].shape_[ax]
            for s in subs[1:]:
                if not same_dim(d, s.shape_[ax]):
                    raise ValueError('inhomogeneous shape')
                if isinstance(s.shape_[ax], int):
                    d = s.shape_[ax]
            shape.append(d)
        k = kind or rkind(o_sub if any(s.kind != 'b' for s in subs) else o_and, *[s.kind for s in subs])
        if not kind and all(s.kind == 'b' for s in subs):
            k = 'b'
        snaps = [s.snap() for s in subs]
        shp = [s.shape_ for s in subs]
        def fn(ix):
            k0 = iterm(ix[0])
            rest = ix[1:]
            get = lambda j: elem_cast(snaps[j](tuple(nix(iterm(r), d) if not isinstance(r, PIx) else nix(r, d) for r, d in zip(rest, shp[j]))), k)
            if isinstance(k0, int):
                return get(k0)
            r = get(len(snaps) - 1)
            for j in range(len(snaps) - 2, -1, -1):
                r = e_ite(k0 == j, get(j), r)
            return r
        return Arr((len(subs),) + tuple(shape), fn, k)
    if isinstance(x, JList):
        x = x.frozen()
    if isinstance(x, Seq):
        if isinstance(x.n, int):
            if x.n <= SMALL:
                return asarr([x.at(i) for i in range(x.n)], kind)
        s, _c = skolem(x.n)
        e = x.at(s)
        if is_obj(e):
            return Arr((x.n,), lambda ix: x.at(ix[0]), 'o')
        ea = asarr(e)
        k = kind or ea.kind
        if ea.ndim == 0 and ea.kind == 'i' and kind is None and seq_has_float(x):
            k = 'f'
        inner = ea.shape_
        def fn(ix):
            sub = asarr(x.at(ix[0]))
            return elem_cast(sub.snap()(tuple(nix(i, d) for i, d in zip(ix[1:], sub.shape_))), k)
        return Arr((x.n,) + tuple(inner), fn, k)
    if isinstance(x, (range,)):
        return asarr(list(x), kind)
    if z3.is_expr(x):
        return asarr(lift(x), kind)
    raise Unsupported('array from %r' % type(x))

def seq_has_float(x):
    # element kinds of concatenated sequences: probe position 0 and a generic one
    try:
        for k in (0,):
            e = x.at(k)
            if numlike(e) and lift(e).kind == 'f':
                return True
    except Exception:
        pass
    return False

def is_obj(x):
    if isinstance(x, (Arr, list, tuple, Seq, B, bool)) or numlike(x) or isinstance(x, range):
        return False
    if hasattr(x, '_as_arr'):
        return False
    if z3.is_expr(x):
        return False
    return True

# ---- reshape
def prod_dims(ds):
    return pdim(*ds) if ds else 1

def reshape(a, shape):
    shape = [mkdim(d) if not isinstance(d, int) else d for d in shape]
    src = a.shape_
    total = prod_dims(src)
    if any(isinstance(d, int) and d == -1 for d in shape):
        p = [i for i, d in enumerate(shape) if isinstance(d, int) and d == -1][0]
        others = [d for i, d in enumerate(shape) if i != p]
        # remove the other dims from the source factor list
        facs = [c for d in src for c in comps(d)]
        rest = list(facs)
        ok = True
        oc = [c for d in others for c in comps(d) if not is_one(c)]
        for c in oc:
            for r in rest:
                if domkey(r) == domkey(c):
                    rest.remove(r)
                    break
            else:
                ok = False
        if ok:
            shape[p] = prod_dims(rest)
        else:
            allint = all(isinstance(c, int) for c in facs)
            if allint and all(isinstance(d, int) for d in others):
                t = 1
                for c in facs: t *= c
                o = 1
                for d in others: o *= d
                if o == 0 or t % o:
                    raise ValueError('cannot reshape array')
                shape[p] = t // o
            else:
                # combine concrete factors
                ints = [c for c in rest if isinstance(c, int)]
                syms = [c for c in rest if not isinstance(c, int)]
                pi = 1
                for c in ints: pi *= c
                oi = 1
                missing = [c for c in oc if not isinstance(c, int)]
                facs2 = [c for c in facs if not isinstance(c, int)]
                for c in missing:
                    for r in facs2:
                        if domkey(r) == domkey(c):
                            facs2.remove(r)
                            break
                    else:
                        raise Unsupported('reshape %s -> %s' % (src, shape))
                fi = 1
                for c in facs:
                    if isinstance(c, int): fi *= c
                for c in oc:
                    if isinstance(c, int): oi *= c
                if fi % oi:
                    raise Unsupported('reshape with symbolic divisibility')
                shape[p] = prod_dims(facs2 + ([fi // oi] if fi // oi != 1 else []))
    else:
        tt = prod_dims(shape)
        t = dim_eq_term(total, tt)
        if t is not True and not decide(t_bool(t)):
            raise ValueError('cannot reshape array')
    # group factors: same component list -> structural reindexing
    sc = [c for d in src for c in comps(d) if not is_one(c)]
    tc = [c for d in shape for c in comps(d) if not is_one(c)]
    sf = a.snap()
    if len(sc) == len(tc) and all(domkey(x) == domkey(y) for x, y in zip(sc, tc)):
        def conv(ix, froms, tos):
            parts = []
            for i, d in zip(ix, froms):
                i = nix(i, d)
                if isinstance(i, PIx):
                    parts.extend(i.parts)
                elif not is_one(d):
                    parts.append(i)
            out, p = [], 0
            for d in tos:
                if is_one(d):
                    out.append(0)
                    continue
                m = len(comps(d))
                out.append(build_ix(d, parts[p:p + m]))
                p += m
            return tuple(out)
        r = Arr(tuple(shape), None, a.kind, base=a, imap=lambda ix: conv(ix, shape, src))
        r.meta['inv'] = lambda bix: (True, conv(bix, src, shape))
        return r
    # general: via flat index, batch axes that match structurally first are kept
    k = 0
    while k < len(src) and k < len(shape) and domkey(src[k]) == domkey(shape[k]):
        k += 1
    ss, ts = src[k:], tuple(shape[k:])
    def fn(ix):
        flat = 0
        for i, d in zip(ix[k:], ts):
            flat = simpi(intt(flat) * intt(dterm(d)) + intt(iterm(nix(i, d))))
        out = []
        rest = flat
        for d in reversed(ss):
            if d is ss[0]:
                out.append(rest)
            else:
                q, r_ = int_divmod(rest, dterm(d))
                out.append(r_)
                rest = q
        out = list(reversed(out))
        return sf(tuple(ix[:k]) + tuple(nix(simpi(o), d) for o, d in zip(out, ss)))
    return Arr(tuple(shape), fn, a.kind)

# ---- boolean selection
class Sel:
    """Order-preserving enumeration of the true positions of a 1-d (or n-d, row-major) mask"""
    def __init__(self, mask):
        self.mf = mask.snap()
        self.dims = list(mask.shape_)
        self.cdims = [c for d in self.dims for c in comps(d)]
        nm = fresh_name('sel')
        self.M = z3.Int('M' + nm)
        REG.add_static(str(self.M), self.M >= 0)
        self.n = Num(self.M, kind='i')
        self.key = domkey(self.n)
        SELS[self.key] = weakref.ref(self)
        self.src = [z3.Function('src%d%s' % (j, nm), z3.IntSort(), z3.IntSort()) for j in range(len(self.cdims))]
        self.inv = z3.Function('inv' + nm, *([z3.IntSort()] * (len(self.cdims) + 1)))
        for f in self.src:
            REG.funcdom[f.name()] = (self.key,)
            REG.add_dynamic(f.name(), self)
        REG.funcdom[self.inv.name()] = tuple(domkey(c) for c in self.cdims)
        REG.add_dynamic(self.inv.name(), self)
        REG.add_dynamic(str(self.M), self)
    def ix(self, k):
        """source multi-index of the k-th selected element"""
        k = intt(iterm(k))
        if z3.is_app(k) and k.decl().eq(self.inv):
            # src(inv(i)) = i: by definition for selected i; src outside [0, M) is ours to choose for the others
            vals = [simpi(c) for c in k.children()]
        else:
            vals = [f(k) for f in self.src]
        out, p = [], 0
        for d in self.dims:
            m = len(comps(d))
            out.append(build_ix(d, vals[p:p + m]))
            p += m
        return tuple(out)
    def invix(self, idx):
        vals = []
        for i, d in zip(idx, self.dims):
            i = nix(i, d)
            vals.extend(i.parts if isinstance(i, PIx) else [i])
        return self.inv(*[intt(v) for v in vals])
    def mask(self, idx):
        return as_t(self.mf(tuple(nix(i, d) for i, d in zip(idx, self.dims))))
    def lemmas(self, inst):
        done = inst.done_dyn.setdefault(('sel', id(self)), set())
        out = []
        for k in inst.terms(self.key, inst.merged) + [0, 1]:
            kk = ('k', ikey(k))
            if kk in done:
                continue
            done.add(kk)
            idx = self.ix(k)
            kt = intt(k)
            rng = z3.And(kt >= 0, kt < self.M)
            out.append(t_imp(rng, t_and(*[inrange(i, d) for i, d in zip(idx, self.dims)], self.mask(idx), self.invix(idx) == kt)))
            if len(self.cdims) == 1:
                for k2 in inst.terms(self.key, inst.merged) + [0, 1]:
                    if k2 is k or (isinstance(k2, int) and isinstance(k, int) and k2 == k):
                        continue
                    a, b = kt, intt(k2)
                    out.append(z3.Implies(z3.And(0 <= a, a < b, b < self.M), self.src[0](a) < self.src[0](b)))
                    out.append(z3.Implies(z3.And(0 <= b, b < a, a < self.M), self.src[0](b) < self.src[0](a)))
        choices = [list(range(c)) if isinstance(c, int) and c <= 8 else inst.terms(domkey(c), inst.merged) for c in self.cdims]
        n = 1
        for ch in choices: n *= max(1, len(ch))
        if n > 900:
            inst.capped = True
            return out
        for combo in itertools.product(*choices):
            kk = ('i',) + tuple(ikey(t) for t in combo)
            if kk in done:
                continue
            done.add(kk)
            vals, idx, p = list(combo), [], 0
            for d in self.dims:
                m = len(comps(d))
                idx.append(build_ix(d, vals[p:p + m]))
                p += m
            rng = t_and(*[inrange(i, d) for i, d in zip(idx, self.dims)])
            if rng is False:
                continue
            iv = self.invix(idx)
            back = self.ix(iv)
            same = []
            for a, b in zip(back, idx):
                pa = a.parts if isinstance(a, PIx) else [a]
                pb = b.parts if isinstance(b, PIx) else [b]
                same += [intt(x) == intt(y) for x, y in zip(pa, pb)]
            out.append(t_imp(t_and(rng, self.mask(idx)), t_and(iv >= 0, iv < self.M, *same)))
        return out

def selection(mask):
    if mask._base is not None:
        m2 = mask.meta.get('selsnap')
        return Sel(mask)
    if mask._selcache is None or mask._selcache[0] is not mask._fn:
        mask._selcache = (mask._fn, Sel(mask))
    return mask._selcache[1]

def concrete_mask(mask):
    """list of positions when the mask is fully concrete, else None"""
    if not all(isinstance(d, int) for d in mask.shape_):
        return None
    n = 1
    for d in mask.shape_: n *= d
    if n > 64:
        return None
    pos = []
    for ix in itertools.product(*[range(d) for d in mask.shape_]):
        v = mask.at(*ix)
        t = as_t(v)
        t = simp(t) if not isinstance(t, bool) else t
        if t is True:
            pos.append(ix)
        elif t is not False:
            return None
    return pos

# ---- get / set item
def parse_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    if any(k is Ellipsis for k in key):
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        used = 0
        for k in key:
            if k is None or k is Ellipsis:
                continue
            used += k.ndim if isinstance(k, Arr) and k.kind == 'b' else 1
        key[p:p + 1] = [slice(None)] * (a.ndim - used)
    used = 0
    for k in key:
        if k is None:
            continue
        used += k.ndim if isinstance(k, Arr) and k.kind == 'b' else 1
    if used > a.ndim:
        raise IndexError('too many indices for array')
    key += [slice(None)] * (a.ndim - used)
    out = []
    for k in key:
        if isinstance(k, (list, Seq)) or (isinstance(k, tuple)):
            k = asarr(k)
            if k.kind == 'f' and is_zero_len(k):
                k = k.astype(DType('i', 'int64'))
        if isinstance(k, Arr) and k.ndim == 0:
            k = k.at()
        if isinstance(k, Arr) and k.kind == 'f':
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        out.append(k)
    return out

def is_zero_len(a):
    return a.ndim == 1 and isinstance(a.shape_[0], int) and a.shape_[0] == 0

def getitem(a, key):
    ops = parse_key(a, key)
    adv = any(isinstance(k, Arr) for k in ops)
    if not adv:
        return basic_get(a, ops)
    # expand masks into selection-derived index arrays
    exp = []
    for k in ops:
        if isinstance(k, Arr) and k.kind == 'b':
            exp.append(('mask', k))
        else:
            exp.append(('op', k))
    # advanced index components per axis
    ax = 0
    comps_ = []    # list of ('new',) | ('slice',lo,n,step,ax) | ('adv', fn(advidx)->idx, shape, ax..)
    adv_arrays = []
    for tag, k in exp:
        if tag == 'mask':
            for p in range(k.ndim):
                if not same_dim(k.shape_[p], a.shape_[ax + p]):
                    raise IndexError('boolean index did not match indexed array')
            pos = concrete_mask(k)
            if pos is not None:
                ar = [Arr((len(pos),), (lambda p_: lambda ix: lift(pick([q[p_] for q in pos], ix[0])))(p), 'i') for p in range(k.ndim)]
                for p in range(k.ndim):
                    comps_.append(('adv', ar[p], ax + p))
                    adv_arrays.append(ar[p])
            else:
                s = selection(k)
                for p in range(k.ndim):
                    arr = Arr((s.n,), (lambda s_, p_: lambda ix: inum(s_.ix(ix[0])[p_]))(s, p), 'i')
                    arr.meta['selix'] = (s, p)
                    arr.meta['safe'] = True
                    comps_.append(('adv', arr, ax + p))
                    adv_arrays.append(arr)
            ax += k.ndim
        elif isinstance(k, Arr):
            comps_.append(('adv', k, ax))
            adv_arrays.append(k)
            ax += 1
        elif k is None:
            comps_.append(('new',))
        elif isinstance(k, slice):
            lo, n, st = slice_norm(k, a.shape_[ax])
            comps_.append(('slice', lo, n, st, ax))
            ax += 1
        else:
            comps_.append(('adv', asarr(k), ax))
            adv_arrays.append(asarr(k))
            ax += 1
    ashape = bcast_shapes([x.shape_ for x in adv_arrays])
    advpos = [i for i, c in enumerate(comps_) if c[0] == 'adv']
    contiguous = advpos == list(range(advpos[0], advpos[-1] + 1))
    out_shape = []
    layout = []   # for each comp non-adv: out position
    if not contiguous:
        out_shape += list(ashape)
        astart = 0
        for i, c in enumerate(comps_):
            if c[0] == 'new':
                layout.append((i, len(out_shape)))
                out_shape.append(1)
            elif c[0] == 'slice':
                layout.append((i, len(out_shape)))
                out_shape.append(c[2])
    else:
        astart = None
        for i, c in enumerate(comps_):
            if c[0] == 'adv':
                if astart is None:
                    astart = len(out_shape)
                    out_shape += list(ashape)
            else:
                layout.append((i, len(out_shape)))
                out_shape.append(1 if c[0] == 'new' else c[2])
    lay = dict(layout)
    nadv = len(ashape)
    maps = {}
    for i in advpos:
        x = comps_[i][1]
        maps[i] = (bmap(x.shape_, ashape), x.snap(), x)
    af = a.snap()
    # bounds: every advanced index must be in range
    for i in advpos:
        x, axis = comps_[i][1], comps_[i][2]
        if not x.meta.get('safe'):
            D = dterm(a.shape_[axis])
            xf = x.snap()
            def okidx(*ix, xf=xf, D=D):
                t = lift(xf(tuple(ix))).fin
                return t_and(simp(t >= -intt(D)), simp(t < intt(D)))
            c = forall_t(list(x.shape_), okidx) if x.shape_ else okidx()
            c = simp(c) if not isinstance(c, bool) else c
            if c is not True and not decide(t_bool(c)):
                raise IndexError('index out of bounds')
    # negative indices count from the end: settled once for the whole index array where possible
    pos = {}
    for i in advpos:
        x = comps_[i][1]
        pos[i] = bool(x.meta.get('nonneg') or x.meta.get('selix') is not None)
        if not pos[i] and x.shape_:
            sk, sc = [], True
            for d in x.shape_:
                s_, c_ = skolem(d); sk.append(s_); sc = t_and(sc, c_)
            t = lift(x.snap()(tuple(sk))).fin
            if not isinstance(t, int) and STACK.items:
                from . import prover
                pos[i] = prover.prove(t >= 0, ctx().full_pc() + [t_bool(sc)], timeout=2000, rounds=2).ok
    def fn(ix):
        aidx = tuple(ix[astart:astart + nadv])
        res = [None] * a.ndim
        for i, c in enumerate(comps_):
            if c[0] == 'adv':
                m, sf, x = maps[i]
                sel = x.meta.get('selix')
                if sel is not None:
                    s, p = sel
                    res[c[2]] = nix(s.ix(m(aidx)[0])[p], a.shape_[c[2]])
                else:
                    t = lift(sf(m(aidx))).fin
                    t = simpi(t)
                    if isinstance(t, int):
                        if t < 0:
                            t = simpi(intt(dterm(a.shape_[c[2]])) + t)
                    elif not pos[i] and not nonneg_quick(t):
                        t = simpi(z3.If(t < 0, t + intt(dterm(a.shape_[c[2]])), t))
                    res[c[2]] = nix(t, a.shape_[c[2]])
            elif c[0] == 'slice':
                res[c[4]] = nix(addk(c[1], ix[lay[i]], c[3]), a.shape_[c[4]]) if not (isinstance(c[1], int) and c[1] == 0 and c[3] == 1) else nix(ix[lay[i]], a.shape_[c[4]])
        return af(tuple(res))
    r = Arr(tuple(out_shape), fn, a.kind)
    return unwrap0(r)

def nonneg_quick(t):
    if not STACK.items:
        return False
    return provably_not(t < 0)

def basic_get(a, ops):
    ax = 0
    out_shape, plan = [], []
    for k in ops:
        if k is None:
            out_shape.append(1)
            continue
        if isinstance(k, slice):
            lo, n, st = slice_norm(k, a.shape_[ax])
            plan.append(('s', lo, st, len(out_shape), n))
            out_shape.append(n)
        else:
            if isinstance(k, B) or isinstance(k, bool):
                raise Unsupported('boolean scalar index')
            t = index_check(k, a.shape_[ax])
            plan.append(('i', t))
        ax += 1
    shp = a.shape_
    def imap(ix):
        out = []
        for p, d in zip(plan, shp):
            if p[0] == 'i':
                out.append(nix(p[1], d))
            elif isinstance(p[1], int) and p[1] == 0 and p[2] == 1:
                out.append(nix(ix[p[3]], d))
            else:
                out.append(nix(addk(p[1], ix[p[3]], p[2]), d))
        return tuple(out)
    if not out_shape:
        return a.snap()(imap(()))
    r = Arr(tuple(out_shape), None, a.kind, base=a, imap=imap)
    oshape = r.shape_
    def inv(bix):
        c = True
        vi = [0] * len(oshape)
        for p, d, b in zip(plan, shp, bix):
            bt = iterm(b)
            if p[0] == 'i':
                c = t_and(c, True if (isinstance(bt, int) and isinstance(p[1], int) and bt == p[1]) else simp(intt(bt) == intt(p[1])))
            else:
                lo, st, op, n = p[1], p[2], p[3], p[4]
                if isinstance(lo, int) and lo == 0 and st == 1:
                    vi[op] = b
                    if domkey(n) != domkey(d):
                        c = t_and(c, simp(intt(bt) < intt(dterm(n))))
                else:
                    off = simpi(intt(bt) - intt(lo))
                    if st == 1:
                        vi[op] = off
                    elif st == -1:
                        vi[op] = simpi(intt(lo) - intt(bt))
                    else:
                        q, r_ = int_divmod(off, st)
                        c = t_and(c, simp(intt(r_) == 0))
                        vi[op] = simpi(q)
                    c = t_and(c, inrange(vi[op], n))
            if c is False:
                return False, tuple(vi)
        return c, tuple(nix(v, d) for v, d in zip(vi, oshape))
    r.meta['inv'] = inv
    return r

def setitem(a, key, v):
    ops = parse_key(a, key)
    adv = [k for k in ops if isinstance(k, Arr)]
    if not adv:
        if all(not isinstance(k, slice) and k is not None for k in ops):
            idx = [index_check(k, d) for k, d in zip(ops, a.shape_)]
            if isinstance(v, Arr):
                v = v._scalar()
            vv = v
            a._write(lambda ix: t_and(*[eq_ix(i, j) for i, j in zip(ix, idx)]), lambda ix: vv)
            return
        view = basic_get(a, ops)
        if is_obj(v):
            raise Unsupported('object assignment')
        va = asarr(v)
        if len(va.shape_) > len(view.shape_):
            # leading ones allowed
            while len(va.shape_) > len(view.shape_) and is_one(va.shape_[0]):
                va = va[0] if isinstance(va, Arr) else va
                va = asarr(va)
            if len(va.shape_) > len(view.shape_):
                raise ValueError('could not broadcast input array')
        check_assign(va.shape_, view.shape_)
        m = bmap(va.shape_, view.shape_)
        vf = va.snap()
        view._write(lambda ix: True, lambda ix: vf(m(ix)))
        return
    if len(adv) == 1 and adv[0].kind == 'b':
        k = adv[0]
        p0 = 0
        for o in ops:
            if o is k:
                break
            if not (isinstance(o, slice) and o == slice(None)):
                raise Unsupported('mixed mask assignment')
            p0 += 1
        post = ops[[i for i, o in enumerate(ops) if o is k][0] + 1:]
        if any(not (isinstance(o, slice) and o == slice(None)) for o in post):
            raise Unsupported('mixed mask assignment')
        kf = k.snap()
        va = asarr(v)
        target = None
        vf = va.snap()
        if va.ndim == 0:
            val = lambda ix: vf(())
        else:
            s = selection(k)
            oshape = tuple(a.shape_[:p0]) + (s.n,) + tuple(a.shape_[p0 + k.ndim:])
            check_assign(va.shape_, oshape)
            m = bmap(va.shape_, oshape)
            def val(ix):
                kk = s.invix(ix[p0:p0 + k.ndim])
                return vf(m(tuple(ix[:p0]) + (kk,) + tuple(ix[p0 + k.ndim:])))
        a._write(lambda ix: as_t(kf(tuple(nix(i, d) for i, d in zip(ix[p0:p0 + k.ndim], k.shape_)))), val)
        return
    if len(adv) == 1:
        k = adv[0]
        pos = [i for i, o in enumerate(ops) if o is k][0]
        if any(not (isinstance(o, slice) and o == slice(None)) for i, o in enumerate(ops) if i != pos):
            raise Unsupported('mixed fancy assignment')
        if k.ndim != 1:
            raise Unsupported('n-d fancy assignment')
        va = asarr(v)
        vf = va.snap()
        oshape = tuple(a.shape_[:pos]) + tuple(k.shape_) + tuple(a.shape_[pos + 1:])
        check_assign(va.shape_, oshape)
        m = bmap(va.shape_, oshape)
        sel = k.meta.get('selix')
        if sel is not None:
            s, p = sel
            cond = lambda ix: s.mask((ix[pos],))
            val = lambda ix: vf(m(tuple(ix[:pos]) + (s.invix((ix[pos],)),) + tuple(ix[pos + 1:])))
        elif small(k.shape_[0]):
            items = [lift(k.at(j)).fin for j in range(k.shape_[0])]
            items = [z3.If(t < 0, t + intt(dterm(a.shape_[pos])), t) if not isinstance(simpi(t), int) else (simpi(t) if simpi(t) >= 0 else simpi(intt(dterm(a.shape_[pos])) + simpi(t))) for t in items]
            cond = lambda ix: t_or(*[eq_ix(ix[pos], t) for t in items])
            def val(ix):
                r = None
                for j, t in enumerate(items):
                    vv = vf(m(tuple(ix[:pos]) + (j,) + tuple(ix[pos + 1:])))
                    r = vv if r is None else e_ite(eq_ix(ix[pos], t), elem_cast(vv, a.kind), elem_cast(r, a.kind))
                return r
        else:
            # injective? use an inverse function with defining lemma
            inv = z3.Function(fresh_name('finv'), z3.IntSort(), z3.IntSort())
            kf = k.snap()
            n = k.shape_[0]
            hit = lambda ix: exists_t([n], lambda q: t_bool(intt(iterm(ix[pos])) == lift(kf((q,))).fin))
            REG.funcdom[inv.name()] = (domkey(a.shape_[pos]),)
            def appl(app):
                t = app.arg(0)
                h = hit(tuple([0] * pos) + (t,))
                return [t_imp(h, t_and(app >= 0, app < intt(dterm(n)), lift(kf((app,))).fin == t))]
            REG.applemma[inv.name()] = appl
            cond = hit
            val = lambda ix: vf(m(tuple(ix[:pos]) + (inv(intt(iterm(ix[pos]))),) + tuple(ix[pos + 1:])))
        a._write(cond, val)
        return
    raise Unsupported('multi-array assignment')

def check_assign(vshape, oshape):
    off = len(oshape) - len(vshape)
    if off < 0:
        raise ValueError('could not broadcast input array')
    for p, d in enumerate(vshape):
        if is_one(d):
            continue
        if not same_dim(d, oshape[p + off]):
            if not isinstance(d, int) and decide(intt(dterm(d)) == 1):
                continue
            raise ValueError('could not broadcast input array')

def eq_ix(i, j):
    i, j = iterm(i), iterm(j)
    if isinstance(i, int) and isinstance(j, int):
        return i == j
    return simp(intt(i) == intt(j))

# ---- reductions
def norm_axes(a, axis):
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        return sorted(x % a.ndim for x in axis)
    ax = int(lift(axis).const())
    if not -a.ndim <= ax < a.ndim:
        raise ValueError('axis out of bounds')
    return [ax % a.ndim]

def red(a, axis, keepdims, f, kind):
    """f(list of reduced dims, closure(*reduced idx)) -> element"""
    a = asarr(a)
    axes = norm_axes(a, axis)
    rest = [i for i in range(a.ndim) if i not in axes]
    sf = a.snap()
    rd = [a.shape_[i] for i in axes]
    def at(ix):
        # ix indexes the remaining axes
        def closure(*r):
            full = [None] * a.ndim
            for i, v in zip(rest, ix):
                full[i] = v
            for i, v in zip(axes, r):
                full[i] = v
            return sf(tuple(full))
        return f(rd, closure)
    if keepdims:
        shape = tuple(1 if i in axes else a.shape_[i] for i in range(a.ndim))
        return Arr(shape, lambda ix: at(tuple(ix[i] for i in rest)), kind)
    return unwrap0(Arr(tuple(a.shape_[i] for i in rest), at, kind))

def red_bool(a, axis, op, keepdims=False):
    a = asarr(a)
    def f(dims, cl):
        if op == 'all':
            return mkb(forall_t(dims, lambda *i: as_t(cl(*i))))
        return mkb(exists_t(dims, lambda *i: as_t(cl(*i))))
    return red(a, axis, keepdims, f, 'b')

def red_minmax(a, axis, op, keepdims=False):
    a = asarr(a)
    axes = norm_axes(a, axis)
    for i in axes:
        d = a.shape_[i]
        if isinstance(d, int):
            if d == 0:
                raise ValueError('zero-size array to reduction operation')
        elif not decide(intt(dterm(d)) > 0):
            raise ValueError('zero-size array to reduction operation')
    def f(dims, cl):
        if all(small(d) for d in dims):
            r = None
            for ix in itertools.product(*[range(d) for d in dims]):
                v = lift(cl(*ix))
                r = v if r is None else (n_min(r, v) if op == 'min' else n_max(r, v))
            return r
        # partial expansion of concrete axes
        for p, d in enumerate(dims):
            if small(d):
                rest = dims[:p] + dims[p + 1:]
                r = None
                for v_ in range(d):
                    x = f(rest, lambda *i, v_=v_: cl(*(i[:p] + (v_,) + i[p:])))
                    r = x if r is None else (n_min(r, x) if op == 'min' else n_max(r, x))
                return r
        return QRed(dims, cl, op).num()
    return red(a, axis, keepdims, f, a.kind if a.kind != 'b' else 'b')

def red_sum(a, axis, keepdims=False):
    a = asarr(a)
    def f(dims, cl):
        return vec_reduce('sum', dims, cl)
    return red(a, axis, keepdims, f, 'i' if a.kind in 'ib' else 'f')

def red_prod(a, axis, keepdims=False):
    a = asarr(a)
    return red(a, axis, keepdims, lambda dims, cl: vec_reduce('prod', dims, cl), 'i' if a.kind in 'ib' else 'f')

def vec_reduce(kind, dims, cl):
    if all(small(d) for d in dims):
        r = lift(0) if kind == 'sum' else lift(1)
        first = True
        for ix in itertools.product(*[range(d) for d in dims]):
            v = _n(cl(*ix))
            if first:
                r, first = v, False
            else:
                r = n_add(r, v) if kind == 'sum' else n_mul(r, v)
        return r
    if len(dims) != 1:
        raise Unsupported('%s over several symbolic axes' % kind)
    probe = lift(cl(skolem(dims[0])[0]))
    if kind == 'sum' and getattr(probe, 'kind', 'f') == 'i':
        q = VecFun('sum', dims[0], cl)
        k = fresh_int('isum')
        REG.add_static(str(k), z3.ToReal(k) == q.v)
        return Num(k, kind='i', np=True)
    return Num(VecFun(kind, dims[0], cl).v, kind='f', np=True)

def vnorm(dims, cl):
    if all(small(d) for d in dims):
        s = None
        for ix in itertools.product(*[range(d) for d in dims]):
            v = _n(cl(*ix))
            s = n_mul(v, v) if s is None else n_add(s, n_mul(v, v))
        return n_sqrt(s) if s is not None else lift(0.0)
    if len(dims) != 1:
        raise Unsupported('norm over several symbolic axes')
    return Num(VecFun('norm', dims[0], cl).v, kind='f', np=True)
