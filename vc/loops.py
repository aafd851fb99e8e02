"""Loop rules.

Bounded (concrete trip count) loops run as they are.  A `for` over a sequence of symbolic length is
summarised: the body is executed symbolically once for an arbitrary iteration index (all its
obligations are generated there), its effects on carried state are recognised as one of the fold
shapes below -- each justified by an obligation the prover discharges, not by the syntax -- and the
state after the loop is the closed form of that fold over all iterations, with no bound.  `while`
loops use an inductive invariant (see While).
"""
import z3
from .sym import *
from . import sym, prover
from . import arr as A
from .arr import *

class Poison:
    """value of a variable no iteration may read before writing it"""
    def __init__(self, name): self.__dict__['_pn'] = name
    def _use(self, *a, **k): raise PoisonUsed(self.__dict__['_pn'])
    def __getattr__(self, n):
        raise PoisonUsed(self.__dict__['_pn'])
    def __setattr__(self, n, v): raise PoisonUsed(self.__dict__['_pn'])
for _m in ('add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow rpow neg pos abs invert and rand or ror xor rxor '
           'lt le gt ge eq ne bool call getitem setitem delitem iter len contains iadd isub imul iand ior matmul int float index').split():
    setattr(Poison, '__%s__' % _m, Poison._use)
Poison.__hash__ = lambda self: id(self)

def is_poison(v): return type(v) is Poison

class Outcome:
    __slots__ = ('guard', 'kind', 'val', 'vars', 'events', 'mark', 'ctx')

def wrap(v, mark):
    """value v read back later, evaluated in the heap/path where it was computed"""
    if isinstance(v, Arr):
        with travel(mark):
            f = v.snap()
        def at(ix):
            with travel(mark):
                return f(ix)
        r = Arr(v.shape_, at, v.kind)
        r.meta.update({k: x for k, x in v.meta.items() if k in ('selix', 'safe', 'nonneg')})
        return r
    if isinstance(v, Seq):
        with travel(mark):
            s = as_seq(v)
            n = s.n
        def at(k):
            with travel(mark):
                x = s.at(k)
            return wrap(x, mark)
        w = Seq(n, at, v.tup)
        return w
    if isinstance(v, tuple):
        return tuple(wrap(x, mark) for x in v)
    return v

def concrete_iter(it):
    from .engine import is_symseq, native, JDict
    if is_symseq(it):
        return None
    if isinstance(it, Seq) or isinstance(it, (list, tuple, range, dict, str, JDict)):
        return native(it)
    if isinstance(it, Arr):
        return list(it)
    if hasattr(it, '_concrete_iter'):
        return it._concrete_iter()
    return it

class LoopMixin:
    def for_(self, it, body, get, set_, names, lid):
        if is_poison(it): it._use()
        items = concrete_iter(it)
        if items is not None:
            for x in items:
                r = body(x)
                if r[0] == 'break' or r[0] == 'return':
                    return r
            return None
        for lc in self.eng.loop_contracts:
            r = lc.match_for(self, it, body, get, set_, names, lid)
            if r is not None:
                return r[0]
        live = getattr(it, '_live', None)        # iterating over a live view of an object
        if live is not None: live.iterating += 1
        try:
            return Summary(self, as_seq(it), body, get, set_, names, lid).run()
        finally:
            if live is not None: live.iterating -= 1

    def while_(self, cond, body, get, set_, names, lid):
        for lc in self.eng.loop_contracts:
            r = lc.match_while(self, cond, body, get, set_, names, lid)
            if r is not None:
                return r[0]
        # no invariant given: unroll while the guard is decided by the path condition
        n = 0
        while cond():
            r = body()
            if r[0] in ('break', 'return'):
                return r
            n += 1
            if n > 70:
                raise Unsupported('while loop %s: no invariant and no small concrete bound' % lid)
        return None

class LoopContract:
    def match_for(self, *a): return None
    def match_while(self, *a): return None

class Summary:
    def __init__(self, rt, seq, body, get, set_, names, lid):
        self.rt, self.eng = rt, rt.eng
        self.seq, self.body, self.get, self.set_, self.names, self.lid = seq, body, get, set_, list(names), lid
        self.n = seq.n
        self.memo = {}
        self.xmemo = {}
        self.carried = {}
        self.classifying = []
        self.depth = 0          # > 0 while an iteration is being executed: facts about the loop's result play no role there

    def run(self):
        eng = self.eng
        self.mark = take_mark()
        self.pc0 = ctx().full_pc()
        self.serial0 = next(eng.serial)
        self.pre = self.get()
        self.serial = next(sym._counter)
        self.k, self.kc = skolem(self.n, 'it')
        # generic run: discover carried variables (quiet), then generate obligations once
        eng.quiet += 1
        self.cdelta = {}
        try:
            outs = self.discover()
            if self.learn_carry(outs):
                self.memo, self.xmemo, self.carried = {}, {}, {}
                self.discover()
        finally:
            eng.quiet -= 1
        outs = self.execute(self.k, record=True)
        self.memo[ikey(self.k)] = outs
        self.check_reads(outs)
        exits = [o for o in outs if o.kind != 'next']
        if exits:
            has = A.exists_t([self.n], lambda j: self.guard(j, 'exit'))
            if decide(t_bool(has)):
                e, ec = skolem(self.n, 'exit')
                c = ctx()
                c.assume(t_bool(ec))
                c.assume(t_bool(self.guard(e, 'exit')))
                earlier = t_bool(A.forall_t([self.n], lambda j: t_imp(self.before(j, e), self.guard(j, 'next'))))
                REG.background[earlier.get_id()] = earlier
                c.assume(earlier)
                self.finish(mkdim(intt(iterm(e))), e)
                self.fsets(e)
                r = self.body(self.seq.at(e))
                if r[0] == 'next':
                    raise PathEnd()
                return r
        self.finish(self.n, None)
        return None

    def before(self, j, e):
        return simp(intt(iterm(j)) < intt(iterm(e)))

    # ---- executing one iteration
    def fsets(self, j):
        for nme in self.names:
            if nme in self.carried:
                self.set_(nme, self.value_at(nme, j))
            else:
                self.set_(nme, Poison(nme))

    def execute(self, j, over=None, record=False):
        eng = self.eng
        outs = []
        if not record:
            eng.quiet += 1
        saved_outer = self.get()
        self.depth += 1
        try:
            with travel(self.mark):
                base = self.pc0 + [t_bool(inrange(j, self.n))]
                def fn():
                    for nme, v in self.pre.items():
                        self.set_(nme, v)
                    self.fsets(j)
                    for nme, v in (over or {}).items():
                        self.set_(nme, v)
                    for ob, c in self.cdelta.values():
                        ob._enter(j, c)
                    r = self.body(self.seq.at(j))
                    return r, self.get()
                for kind, v, c in explore(fn, base, engine=eng):
                    if kind == 'end':
                        continue
                    o = Outcome()
                    o.ctx = c
                    o.guard = t_and(*c.pc)
                    o.mark = take_mark()
                    o.events = list(c.journal)
                    if kind == 'raise':
                        o.kind, o.val, o.vars = 'raise', v, {}
                    else:
                        r, vs = v
                        o.kind, o.val = r[0], r
                        o.vars = {n: vs[n] for n in self.names if n in vs}
                    outs.append(o)
        finally:
            self.depth -= 1
            for nme, v in saved_outer.items():
                self.set_(nme, v)
            if not record:
                eng.quiet -= 1
        return outs

    def outcomes(self, j):
        key = ikey(j)
        if key not in self.memo:
            self.memo[key] = self.execute(j)
        return self.memo[key]

    def guard(self, j, which):
        os_ = self.outcomes(j)
        if which == 'next':
            return t_or(*[o.guard for o in os_ if o.kind == 'next'])
        return t_or(*[o.guard for o in os_ if o.kind != 'next'])

    def learn_carry(self, outs):
        """objects with a linear ghost counter: the count every iteration adds"""
        nx = [o for o in outs if o.kind == 'next']
        kterms = {str(x) for x in ([self.k] if not isinstance(self.k, PIx) else self.k.parts) if not isinstance(x, int)}
        for ob in self.eng.carry:
            ds = {str(simp(intt(ob._count(self.evs(ob, o))))): simp(intt(ob._count(self.evs(ob, o)))) for o in nx}
            if len(ds) > 1:
                raise Unsupported('loop %s: iterations draw different numbers of samples' % self.lid)
            for d in ds.values():
                if kterms & {str(c) for c in _consts(d)}:
                    raise Unsupported('loop %s: iterations draw different numbers of samples' % self.lid)
                if not (z3.is_int_value(d) and d.as_long() == 0):
                    self.cdelta[id(ob)] = (ob, d)
        return bool(self.cdelta)

    # ---- carried variables
    def discover(self):
        for _ in range(12):
            try:
                outs = self.execute(self.k)
            except PoisonUsed as p:
                self.classify(p.name)
                continue
            # variables written on some paths only
            redo = False
            nx = [o for o in outs if o.kind == 'next']
            for nme in self.names:
                if nme in self.carried:
                    continue
                left = [o for o in nx if is_poison(o.vars.get(nme))]
                if left and len(left) < len(nx):
                    pre = self.pre.get(nme)
                    if isinstance(pre, (bool, B)) or numlike(pre) or (isinstance(pre, Arr)):
                        try:
                            self.classify(nme)
                            redo = True
                        except Unsupported:
                            pass
            if not redo:
                return outs
        raise Unsupported('loop %s: carried state not recognised' % self.lid)

    def classify(self, name):
        if name in self.carried or name in self.classifying:
            raise Unsupported('loop %s: carried variable %s' % (self.lid, name))
        if name not in self.pre or name not in self.names:
            raise PoisonUsed(name)
        self.classifying.append(name)
        try:
            pre = self.pre[name]
            if is_poison(pre): raise PoisonUsed(name)
            self.carried[name] = ('pending',)
            self.carried[name] = self._classify(name, pre)
        except BaseException:
            self.carried.pop(name, None)
            raise
        finally:
            self.classifying.pop()

    def run_over(self, j, name, v, tag):
        key = (ikey(j), name, tag)
        if key not in self.xmemo:
            while True:
                try:
                    outs = self.execute(j, over={name: v})
                    break
                except PoisonUsed as p:
                    if p.name == name or p.name not in self.names: raise Unsupported('loop %s: %s' % (self.lid, p.name))
                    self.classify(p.name)
            nx = [o for o in outs if o.kind == 'next']
            self.xmemo[key] = nx
        return self.xmemo[key]

    def merged(self, outs, get):
        r = None
        for o in reversed(outs):
            v = get(o)
            r = v if r is None else e_ite(o.guard, v, r)
        return r

    def _classify(self, name, pre):
        k = self.k
        pcs = ctx().full_pc() + [t_bool(self.kc)]
        def valid(goal, outs, extra=()):
            return prover.prove(goal, pcs + list(extra), timeout=4000, rounds=3).ok
        if isinstance(pre, (bool, B)):
            f = self.run_over(k, name, False, 'F')
            t = self.run_over(k, name, True, 'T')
            get = lambda o: as_t(o.vars[name])
            if all(valid(t_imp(o.guard, get(o)), t) for o in t):
                return ('or',)
            if all(valid(t_imp(o.guard, t_not(get(o))), f) for o in f):
                return ('and',)
            if all(valid(t_imp(o.guard, get(o)), f) for o in f) and all(valid(t_imp(o.guard, t_not(get(o))), t) for o in t):
                return ('toggle',)      # every iteration negates it
            raise Unsupported('loop %s: boolean %s is not an or/and fold' % (self.lid, name))
        if isinstance(pre, Arr) and pre.kind == 'b':
            f = self.run_over(k, name, A.const_arr(pre.shape_, False, 'b'), 'F')
            t = self.run_over(k, name, A.const_arr(pre.shape_, True, 'b'), 'T')
            ix, cond = [], True
            for d in pre.shape_:
                s, c = skolem(d); ix.append(s); cond = t_and(cond, c)
            def get(o):
                a = asarr(o.vars[name])
                if len(a.shape_) != len(pre.shape_) or any(domkey(x) != domkey(y) for x, y in zip(a.shape_, pre.shape_)):
                    raise Unsupported('loop %s: %s changes shape' % (self.lid, name))
                return as_t(wrap(a, o.mark).at(*ix))
            if all(valid(t_imp(t_and(o.guard, cond), get(o)), t) for o in t):
                return ('aor',)
            if all(valid(t_imp(t_and(o.guard, cond), t_not(get(o))), f) for o in f):
                return ('aand',)
            raise Unsupported('loop %s: array %s is not an or/and fold' % (self.lid, name))
        if numlike(pre):
            p = lift(pre)
            if p.special(): raise Unsupported('special accumulator')
            a = fresh_int('acc') if p.kind == 'i' else fresh_real('acc')
            outs = self.run_over(k, name, Num(a, kind=p.kind, np=p.np), 'S%s' % a)
            diffs = []
            for o in outs:
                v = o.vars[name]
                if not numlike(v): raise Unsupported('loop %s: accumulator %s' % (self.lid, name))
                v = lift(v)
                if v.special(): raise Unsupported('loop %s: accumulator may be nan/inf' % self.lid)
                if v.kind != p.kind:
                    if p.kind == 'i':
                        a2 = z3.ToReal(a)
                    raise Unsupported('loop %s: accumulator %s changes type' % (self.lid, name))
                diffs.append(simp(v.fin - a))
            occurs = lambda t: any(str(x) == str(a) for x in _consts(t))
            if all(not occurs(d) for d in diffs):
                if len({str(d) for d in diffs}) == 1 and is_const(diffs[0]):
                    return ('lin', diffs[0])
                return ('sum', p.kind)
            # running min / max:  post == min(a, X) with X = post at a := +infinity is not first order;
            # recognised as: post is either a or a value independent of a, and post <= a (>= a)
            raise Unsupported('loop %s: accumulator %s is not a sum' % (self.lid, name))
        raise Unsupported('loop %s: carried variable %s of type %s' % (self.lid, name, type(pre).__name__))

    def xval(self, name, j):
        """contribution of iteration j to fold variable `name`"""
        mode = self.carried[name]
        pre = self.pre[name]
        if mode[0] == 'or':
            outs = self.run_over(j, name, False, 'F')
            return t_or(*[t_and(o.guard, as_t(o.vars[name])) for o in outs])
        if mode[0] == 'and':
            outs = self.run_over(j, name, True, 'T')
            return t_and(*[t_imp(o.guard, as_t(o.vars[name])) for o in outs])
        if mode[0] == 'sum':
            p = lift(pre)
            z = Num(z3.IntVal(0) if p.kind == 'i' else z3.RealVal(0), kind=p.kind, np=p.np)
            outs = self.run_over(j, name, z, '0')
            return self.merged(outs, lambda o: o.vars[name])
        raise Unsupported('xval')

    def value_at(self, name, j, n=None):
        """value of carried variable before iteration j (or after n iterations)"""
        mode = self.carried[name]
        pre = self.pre[name]
        if mode[0] == 'pending':
            return Poison(name)
        jt = iterm(j) if n is None else dterm(n)
        if mode[0] == 'lin':
            p = lift(pre)
            t = intt(jt)
            return Num(p.fin + mode[1] * (t if p.kind == 'i' else z3.ToReal(t)), kind=p.kind, np=p.np)
        if mode[0] == 'toggle':
            odd = mkb(simp(intt(jt) % 2 == 1))
            return mkb(as_t(pre)) ^ odd if not isinstance(pre, bool) else (~odd if isinstance(odd, B) else not odd) if pre else odd
        full = n is not None and n is self.n
        dims = [self.n] if full else [mkdim(jt)]
        if mode[0] == 'or':
            return mkb(t_or(as_t(pre), A.exists_t(dims, lambda q: self.xval(name, q))))
        if mode[0] == 'and':
            return mkb(t_and(as_t(pre), A.forall_t(dims, lambda q: self.xval(name, q))))
        if mode[0] in ('aor', 'aand'):
            pf = pre.snap()
            orr = mode[0] == 'aor'
            def at(ix):
                def x(q):
                    outs = self.run_over(q, name, A.const_arr(pre.shape_, not orr, 'b'), 'F' if orr else 'T')
                    if orr:
                        return t_or(*[t_and(o.guard, as_t(wrap(asarr(o.vars[name]), o.mark).at(*ix))) for o in outs])
                    return t_and(*[t_imp(o.guard, as_t(wrap(asarr(o.vars[name]), o.mark).at(*ix))) for o in outs])
                if orr:
                    return mkb(t_or(as_t(pf(ix)), A.exists_t(dims, x)))
                return mkb(t_and(as_t(pf(ix)), A.forall_t(dims, x)))
            return Arr(pre.shape_, at, 'b')
        if mode[0] == 'sum':
            s = A.vec_reduce('sum', dims, lambda q: self.xval(name, q))
            return lift(pre) + s
        raise Unsupported('value_at')

    # ---- heap effects
    def groups(self, o):
        g = {}
        for swap, obj, what in o.events:
            oid = getattr(obj, '_oid', None)
            if oid is not None and oid > self.serial0:
                continue
            g.setdefault(id(obj), (obj, []))[1].append(what)
        return g

    def check_reads(self, outs):
        self.mutated = {}
        for o in outs:
            for oid, (obj, evs) in self.groups(o).items():
                self.mutated[oid] = obj
        attrs = [ob for ob in self.mutated.values() if not hasattr(ob, '_fold')]
        for ob in attrs:
            for o in outs:
                for what in self.groups(o).get(id(ob), (None, []))[1]:
                    if not (isinstance(what, tuple) and what[0] == 'attr' and self.same_attr(ob, what[1], o)):
                        raise Unsupported('loop %s: effect %r on %s' % (self.lid, what, type(ob).__name__))
        # bodies must not read what other iterations write
        objs = [ob for ob in self.mutated.values() if hasattr(ob, '_fold')]
        if not objs:
            return
        for ob in objs: ob._noread = True
        self.eng.quiet += 1
        try:
            self.execute(self.k)
        finally:
            self.eng.quiet -= 1
            for ob in objs: ob._noread = False

    def same_attr(self, ob, name, o):
        with travel(self.mark):
            a = ob.__dict__.get(name)
        with travel(o.mark):
            b = ob.__dict__.get(name)
        return a is b

    def finish(self, n, e):
        """apply the closed form of the first n iterations"""
        for nme in self.names:
            if nme in self.carried:
                self.set_(nme, self.value_at(nme, None, n=n))
            else:
                self.set_(nme, Poison(nme))
        for ob in [m for m in self.mutated.values() if hasattr(m, '_fold')]:
            ob._fold(self, n)

    def evs(self, ob, o):
        return self.groups(o).get(id(ob), (ob, []))[1]

def _consts(t):
    seen, st, out = set(), [t], []
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
        st.extend(x.children())
    return out

# ---- folds of the basic mutable objects --------------------------------------------------------
def jlist_fold(lst, sm, n):
    def block(o):
        parts = []
        for w in sm.evs(lst, o):
            if w[0] != 'append':
                raise Unsupported('loop %s: list operation %s across iterations' % (sm.lid, w[0]))
            parts.append(wrap(w[1], o.mark))
        if not parts:
            return Seq(0, lambda k: None)
        return parts[0] if len(parts) == 1 else A.seq_concat(parts)
    def nexts(j):
        return [o for o in sm.outcomes(j) if o.kind == 'next']
    outs = nexts(sm.k)
    blocks = [(o, block(o)) for o in outs]
    keys = {domkey(b.n) for _, b in blocks}
    kterms = {str(x) for x in ([sm.k] if not isinstance(sm.k, PIx) else sm.k.parts) if not isinstance(x, int)}
    indep = all(isinstance(b.n, int) or not (kterms & {str(c) for c in _consts(intt(dterm(b.n)))}) for _, b in blocks)
    cache = {}
    def pick_block(j):
        kk = ikey(j)
        if kk not in cache:
            cache[kk] = [(o.guard, block(o)) for o in nexts(j)]
        return cache[kk]
    def elem(j, r):
        v = None
        for g, b in reversed(pick_block(j)):
            if isinstance(b.n, int) and b.n == 0:
                continue
            x = b.at(r)
            v = x if v is None else e_ite(g, x, v)
        if v is None:
            raise DeadValue('loop %s: iteration without outcome' % sm.lid)
        return v
    if len(keys) == 1 and indep:
        m = blocks[0][1].n
        if isinstance(m, int) and m == 0:
            return
        if isinstance(m, int) and m == 1:
            s = Seq(n, lambda j: elem(j, 0))
        else:
            d = pdim(n, m)
            cn = len(comps(n))
            def at(i):
                i = nix(i, d)
                if isinstance(i, PIx) and len(i.parts) == cn + len(comps(m)):
                    return elem(A.build_ix(n, i.parts[:cn]), A.build_ix(m, i.parts[cn:]))
                q, r = sym.int_divmod(iterm(i), dterm(m))
                return elem(nix(q, n), nix(r, m))
            s = Seq(d, at)
    elif indep and all(isinstance(b.n, int) and b.n <= 1 for _, b in blocks):
        mask = Arr((n,), lambda ix: mkb(t_or(*[g for g, b in pick_block(ix[0]) if b.n == 1])), 'b')
        sel = A.selection(mask)
        s = Seq(sel.n, lambda i: elem(sel.ix(i)[0], 0))
        s.origin = ('sel', sel)
    else:
        s = VarConcat(sm, n, pick_block, elem).seq()
    lst._set(None, A.seq_concat([lst.frozen(), s]) if not (isinstance(lst.n, int) and lst.n == 0) else s, ('append', s))

class VarConcat:
    """concatenation of blocks of varying length: offset function with its recurrence"""
    def __init__(self, sm, n, pick_block, elem):
        self.sm, self.n, self.pick_block, self.elem = sm, n, pick_block, elem
        nme = fresh_name('off')
        self.off = z3.Function(nme, z3.IntSort(), z3.IntSort())
        self.blk = z3.Function('blk' + nme, z3.IntSort(), z3.IntSort())
        self.total = z3.Int('tot' + nme)
        self.dim = Num(self.total, kind='i')
        REG.funcdom[self.blk.name()] = (domkey(self.dim),)
        REG.funcdom[self.off.name()] = (domkey(n),)
        for s in (self.off.name(), self.blk.name(), str(self.total)):
            REG.add_dynamic(s, self)
        self.key, self.nkey = domkey(self.dim), domkey(n)
    def blen(self, j):
        r = None
        for g, b in reversed(self.pick_block(j)):
            t = intt(dterm(b.n))
            r = t if r is None else z3.If(t_bool(g), t, r)
        return r if r is not None else z3.IntVal(0)
    def lemmas(self, inst):
        if self.sm.depth: return []
        done = inst.done_dyn.setdefault(('vc', id(self)), set())
        out = []
        N = intt(dterm(self.n))
        if 'b' not in done:
            done.add('b')
            out += [self.off(z3.IntVal(0)) == 0, self.total == self.off(N), self.total >= 0]
        for i in inst.terms(self.key, inst.merged) + [0]:
            k = ('i', ikey(i))
            if k in done: continue
            done.add(k)
            it = intt(i)
            b = self.blk(it)
            rng = z3.And(it >= 0, it < self.total)
            out.append(z3.Implies(rng, z3.And(b >= 0, b < N, self.off(b) <= it, it < self.off(b) + self.blen(simpi(b)))))
        for j in inst.terms(self.nkey, inst.merged) + [0]:
            k = ('j', ikey(j))
            if k in done: continue
            done.add(k)
            jt = intt(j)
            if self.sm.eng.depth_guard(self, j):
                continue
            rng = z3.And(jt >= 0, jt < N)
            bl = self.blen(simpi(jt))
            out.append(z3.Implies(rng, z3.And(bl >= 0, self.off(jt + 1) == self.off(jt) + bl, self.off(jt) >= 0, self.off(jt + 1) <= self.total)))
        js = [intt(t) for t in inst.terms(self.nkey, inst.merged)][:14]
        for a in js:
            for b in js:
                if a.eq(b): continue
                k = ('m', a.get_id(), b.get_id())
                if k in done: continue
                done.add(k)
                out.append(z3.Implies(z3.And(0 <= a, a < b, b <= N), self.off(a) + self.blen(simpi(a)) <= self.off(b)))
        return out
    def seq(self):
        def at(i):
            it = intt(iterm(i))
            j = self.blk(it)
            return self.elem(nix(j, self.n), simpi(it - self.off(j)))
        s = Seq(self.dim, at)
        s.origin = ('varconcat', self)
        return s

def arr_fold(a, sm, n):
    """writes by every iteration to an array that no iteration reads"""
    def writes(j):
        res = []
        for o in sm.outcomes(j):
            if o.kind != 'next': continue
            for w in sm.evs(a, o):
                if not (isinstance(w, tuple) and w[0] == 'write'):
                    raise Unsupported('loop %s: array effect' % sm.lid)
                res.append((o, w[1], w[2]))
        return res
    def cond_val(j, ix):
        """(some write of iteration j hits ix, value written last)"""
        c, v = False, None
        for o, cf, vf in writes(j):
            with travel(o.mark):
                ci = cf(ix)
                if ci is False: continue
                vi = elem_cast(vf(ix), a.kind)
            ci = t_and(o.guard, ci)
            v = vi if v is None else e_ite(ci, vi, v)
            c = t_or(c, ci)
        return c, v
    # injectivity: a write of iteration k to ix implies ix[p] == k for one axis p
    ix, cond = [], True
    for d in a.shape_:
        s, c = skolem(d); ix.append(s); cond = t_and(cond, c)
    c, v = cond_val(sm.k, tuple(ix))
    if c is False:
        return
    kt = intt(iterm(sm.k))
    pcs = ctx().full_pc() + [t_bool(sm.kc), t_bool(cond), t_bool(c)]
    axis = None
    for p in range(len(ix)):
        if prover.prove(intt(iterm(ix[p])) == kt, pcs, timeout=3000, rounds=2).ok:
            axis = p
            break
    old = a._fn
    if axis is not None:
        N = intt(dterm(n))
        def hit(ix):
            j = nix(iterm(ix[axis]), sm.n)
            ci, vi = cond_val(j, ix)
            return t_and(simp(intt(iterm(ix[axis])) < N), ci), vi
        a._write(lambda ix: hit(ix)[0], lambda ix: hit(ix)[1])
        return
    # constant value independent of the iteration: set where any iteration writes
    if numlike(v) and lift(v).const() is not None or isinstance(v, bool):
        a._write(lambda ix: A.exists_t([n], lambda j: cond_val(j, ix)[0]), lambda ix: v)
        return
    raise Unsupported('loop %s: array writes of different iterations may overlap' % sm.lid)

JList._fold = jlist_fold
Arr._fold = arr_fold
def _rng_fold(r, sm, n):
    r.log.append(('loop', sm, n))
    from .nps import _swap_pop
    _swap_pop(r, r.log, r.log[-1])
from . import nps as _nps
_nps.RNG._fold = _rng_fold

# ---- inductive invariants ------------------------------------------------------------------------
class Invariant(LoopContract):
    """Loop rule with an inductive invariant: cut the loop at its head.  `cands(vals, pre, k)` proposes
    {label: goal} over the loop-carried variables (dict name -> value; `k` is the iteration index of a `for`
    loop); the largest inductive subset is used (every member is proved on entry and preserved by an arbitrary
    iteration).  `variants(before, after, pre)` -> {label: goal}: the goals of at least one label must hold on
    every path from loop head to loop head (termination)."""
    def __init__(self, v, func, cands, variants=None, what='loop invariant', need=(), attrs=None):
        self.v, self.func, self.cands, self.variants, self.what, self.need = v, func, cands, variants, what, need
        self.attrs = attrs or (lambda: [])      # -> [(object, attribute, label)]: state of the loop besides local variables
        self.cache = {}
    def matches(self, lid):
        f = lid.rsplit(':', 1)[0]
        return self.func is None or f == self.func or f.endswith('.' + self.func)

    def match_while(self, rt, cond, body, get, set_, names, lid):
        if not self.matches(lid): return None
        return (self.run(rt, cond, body, get, set_, names, lid, None),)
    def match_for(self, rt, it, body, get, set_, names, lid):
        if not self.matches(lid): return None
        return (self.run(rt, None, body, get, set_, names, lid, as_seq(it)),)

    def havoc(self, name, p, kinds):
        if isinstance(p, (bool, B)): return B(z3.Bool(fresh_name('h_' + name)))
        if numlike(p) and not isinstance(p, Arr):
            p = lift(p)
            kd = kinds.get(name, p.kind)
            return Num(z3.Int(fresh_name('h_' + name)) if kd == 'i' else z3.Real(fresh_name('h_' + name)), kind=kd, np=p.np)
        if isinstance(p, Arr):
            return _nps.sym_arr('h_' + name, tuple(p.shape), p.kind)
        return Poison(name)

    def run(self, rt, cond, body, get0, set0, names, lid, seq):
        v, eng = self.v, rt.eng
        attrs = {l: (o, a) for o, a, l in self.attrs()}
        own = {(id(o), a) for o, a in attrs.values()}
        def get():
            d = dict(get0())
            for l, (o, a) in attrs.items(): d[l] = getattr(o, a)
            return d
        def set_(n, x):
            if n in attrs: setattr(attrs[n][0], attrs[n][1], x)
            else: set0(n, x)
        pre = dict(get())
        names = list(names) + list(attrs)
        dyn = [n for n in names if n in pre and not is_poison(pre[n]) and (isinstance(pre[n], (bool, B, Arr)) or numlike(pre[n]))]
        serial0 = next(eng.serial)
        kinds = {}
        def setup(k):
            for n in names:
                set_(n, self.havoc(n, pre[n], kinds) if n in dyn else Poison(n))
            cur = get()
            return {n: cur[n] for n in dyn}
        def cand(vals, k):
            return {l: t_bool(as_t(g)) for l, g in self.cands(vals, pre, k).items()}
        def iterate(k):
            if seq is None:
                if not cond(): return ('exit',)
                return body()
            return body(seq.at(k))
        def after(k):
            cur = get()
            vals = {}
            for n in dyn:
                x = cur[n]
                if is_poison(x): raise Unsupported('loop %s: %s' % (lid, n))
                vals[n] = x
            return vals
        def ok(g, timeout=4000):
            return prover.prove(g, ctx().full_pc(), timeout=timeout).ok
        N = None if seq is None else intt(dterm(seq.n))
        nextk = lambda k: None if seq is None else simpi(intt(iterm(k)) + 1)
        def kvar():
            if seq is None: return None
            k, kc = skolem(seq.n, 'it')
            ctx().assume(t_bool(kc))
            return k
        # entry
        keep = self.cache.get(lid)
        eng.quiet += 1
        try:
            entry = cand({n: pre[n] for n in dyn}, None if seq is None else 0)
            if keep is None or not all(ok(entry[l]) for l in keep[0]):
                labels = [l for l in entry if ok(entry[l])]
                var, kinds0 = None, {}
                while True:
                    drop, bad, promo = set(), set(), {}
                    allv = set()
                    saved = get()
                    mark = take_mark()
                    def fn():
                        k = kvar()
                        vals = setup(k)
                        cs = cand(vals, k)
                        for l in labels: ctx().assume(cs[l])
                        r = iterate(k)
                        if r[0] != 'next': raise PathEnd()
                        return k, vals, after(k)
                    try:
                        for kind, res, c in explore(fn, ctx().full_pc(), engine=eng):
                            if kind != 'ret': continue
                            for swap, obj, what in c.journal:
                                oid = getattr(obj, '_oid', None)
                                if isinstance(what, tuple) and what[0] == 'attr' and (id(obj), what[1]) in own: continue
                                if oid is None or oid <= serial0:
                                    raise Unsupported('loop %s: an iteration changes %s' % (lid, type(obj).__name__))
                            k, vals, post = res
                            for n in dyn:
                                a, b = vals[n], post[n]
                                if isinstance(b, Arr) and isinstance(a, Arr):
                                    if len(a.shape_) != len(b.shape_) or a.kind != b.kind: raise Unsupported('loop %s: array %s changes form' % (lid, n))
                                elif numlike(a) and numlike(b):
                                    if lift(b).special(): raise Unsupported('loop %s: %s may be nan or infinite' % (lid, n))
                                    if lift(a).kind != lift(b).kind:
                                        if (lift(a).kind, lift(b).kind) != ('i', 'f'): raise Unsupported('loop %s: %s changes type' % (lid, n))
                                        promo[n] = 'f'
                                elif isinstance(a, (bool, B)) and isinstance(b, (bool, B)): pass
                                else: raise Unsupported('loop %s: %s changes type' % (lid, n))
                            pc = cand(post, nextk(k))
                            for l in labels:
                                if l not in drop and not ok(pc[l]): drop.add(l)
                            if self.variants is not None:
                                vs = self.variants(dict(pre, **vals), dict(pre, **post), pre)
                                allv |= set(vs)
                                for l, g in vs.items():
                                    if l not in bad and not ok(t_bool(as_t(g))): bad.add(l)
                    finally:
                        for n, x in saved.items(): set_(n, x)
                    if promo:
                        kinds.update(promo)
                        continue
                    if not drop:
                        good = [l for l in allv if l not in bad]
                        var = sorted(good)[0] if good else None
                        novar = bool(allv) and var is None
                        break
                    labels = [l for l in labels if l not in drop]
                keep = (labels, var, novar, dict(kinds))
                self.cache[lid] = keep
        finally:
            eng.quiet -= 1
        labels, var, novar, kinds = keep[0], keep[1], keep[2], dict(keep[3])
        for n in self.need:
            if not any(l.startswith(n) for l in labels):
                self.v.ensure('%s: %s' % (self.what, n), False)
        for l in labels:
            v.ensure('%s holds on entry: %s' % (self.what, l), mkb(entry[l]))
        # arbitrary iteration, or the exit
        if seq is not None:
            if not decide(N > 0): return None
            exit_ = decide(z3.Bool(fresh_name('loopexit')))
            k = inum_(N) if exit_ else kvar()
            if exit_: k = simpi(N)
        else:
            k, exit_ = None, False
        vals = setup(k)
        cs = cand(vals, k)
        for l in labels: ctx().assume(cs[l])
        if exit_: return None
        r = iterate(k)
        if r[0] == 'exit': return None
        if r[0] != 'next': return r
        post = after(k)
        pc = cand(post, nextk(k))
        for l in labels:
            v.ensure('%s is preserved: %s' % (self.what, l), mkb(pc[l]))
        if self.variants is not None:
            vs = self.variants(dict(pre, **vals), dict(pre, **post), pre)
            if var is not None and var in vs: v.ensure('the loop terminates: %s' % var, vs[var])
            elif vs: v.ensure('the loop terminates', False)
        raise PathEnd()

def inum_(t):
    return t
