"""Ground lemma instantiation + solver dispatch.

prove(goal, pc): is pc => goal valid?  We refute pc /\\ not goal.  All axioms of the proxies that
occur in the query are instantiated at the ground index terms that occur in it (rounds, to a
fixpoint or a cap).  'unsat' = obligation discharged.  'sat' at a fixpoint = candidate counter-model.
"""
import os, re, subprocess, tempfile, time
import z3
from . import sym
from .sym import (REG, DeadValue, t_bool, t_not, t_and, simp, intt, domkey, SQRT, LOG, LOG2, EXP, POW)

class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.by = {}
STATS = Stats()

OPTS = dict(timeout=20000, feas_timeout=1500, rounds=5, cap=3000, cvc5=True, hints=[])

_trav_cache = {}

class Facts:
    """What occurs in a set of formulas: uninterpreted symbols, applications, index pools."""
    def __init__(self):
        self.seen = {}
        self.local = set()
        self.pol = {}
        self.names = set()
        self.apps = {}      # func name -> {id: app}
        self.pools = {}     # domkey -> {id-or-int: term}
        self.allidx = {}
        self.keep = []
        self.processed = set()
        self.gen = 0        # instantiation round that is producing formulas
        self.born = {}      # id of an index term -> round in which it appeared

    def add(self, f, skip=None):
        """note what occurs in the formula f; pol collects the polarities of the boolean symbols: 1 when the formulas
        may need the symbol true, 2 when they may need it false (`skip`: the symbol f defines)"""
        if isinstance(f, bool):
            return
        stack = [(f, 1)]
        self.keep.append(f)
        seen = self.seen
        while stack:
            t, pol = stack.pop()
            i = t.get_id()
            m = seen.get(i, 0)
            if m | pol == m and skip is None:
                continue
            first = m == 0
            if skip is None: seen[i] = m | pol
            elif (i, pol) in self.local: continue
            else: self.local.add((i, pol)); first = True
            if z3.is_quantifier(t):
                continue
            if z3.is_app(t):
                d = t.decl()
                k = d.kind()
                if k == z3.Z3_OP_UNINTERPRETED:
                    n = d.name()
                    if z3.is_bool(t) and t.num_args() == 0 and n != skip:
                        self.pol[n] = self.pol.get(n, 0) | pol
                    self.names.add(n)
                    if first:
                        if t.num_args() == 0:
                            dk = REG.constdom.get(n)
                            if dk is not None:
                                self.pool(dk, t)
                        else:
                            self.apps.setdefault(n, {})[i] = t
                            doms = REG.funcdom.get(n)
                            if doms:
                                for a, dk in zip(t.children(), doms):
                                    if dk is not None:
                                        self.pool(dk, a)
                if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
                    stack.extend((c, pol) for c in t.children())
                elif k == z3.Z3_OP_NOT:
                    stack.append((t.arg(0), pol if pol == 3 else 3 - pol))
                elif k == z3.Z3_OP_IMPLIES:
                    stack.append((t.arg(0), pol if pol == 3 else 3 - pol))
                    stack.append((t.arg(1), pol))
                elif k == z3.Z3_OP_ITE and z3.is_bool(t):
                    stack.append((t.arg(0), 3))
                    stack.append((t.arg(1), pol))
                    stack.append((t.arg(2), pol))
                else:
                    stack.extend((c, 3) for c in t.children())
        self.local.clear()

    def pool(self, dk, t):
        t = sym.simpi(t)
        k = t if isinstance(t, int) else t.get_id()
        p = self.pools.setdefault(dk, {})
        if k not in p:
            p[k] = t
            self.born.setdefault(k, self.gen)
            self.allidx[k] = t
            self.keep.append(t)

    def terms(self, dk, merged=False):
        if merged:
            return list(self.allidx.values())
        out = dict(self.pools.get(dk, {}))
        for d2 in list(self.pools):
            if d2 == dk: continue
            c = sym.dom_offset(dk, d2)
            if c is None: continue
            # index ranges that differ by a constant (range(1, n), l[1:]): the indices of one and their shifts
            for t in list(self.pools[d2].values()):
                for u in ((t, sym.simpi(sym.intt(t) + c)) if c else (t,)):
                    if not isinstance(u, int) and z3.is_add(u) and u is not t and any(z3.is_int_value(x) and abs(x.as_long()) > 1 for x in u.children()):
                        continue
                    k = u if isinstance(u, int) else u.get_id()
                    if k not in out:
                        out[k] = u
                        self.keep.append(u)
        return list(out.values())

# --- axioms of the built-in functions ------------------------------------------------------
def _r(x):
    return z3.RealVal(x)

def app_axioms(name, app):
    if name == 'sqrt':
        x = app.arg(0)
        return [z3.Implies(x >= 0, z3.And(app >= 0, app * app == x)), z3.Implies(x > 0, app > 0)]
    if name in ('log', 'log2'):
        x = app.arg(0)
        f = LOG if name == 'log' else LOG2
        ax = [z3.Implies(x > 0, z3.And(z3.Implies(x > 1, app > 0), z3.Implies(x < 1, app < 0))),
              f(_r(1)) == 0]
        if name == 'log':
            ax.append(z3.Implies(x > 0, app <= x - 1))
        else:
            ax += [f(_r(2)) == 1, f(_r('1/2')) == -1]
        return ax
    if name == 'exp':
        x = app.arg(0)
        return [app > 0, app >= 1 + x, EXP(_r(0)) == 1]
    if name == 'pow':
        x, y = app.arg(0), app.arg(1)
        nest = []
        if z3.is_app(x) and x.decl().name() == 'pow' and x.num_args() == 2:    # (b^e)^y = b^(e y)
            b, e = x.arg(0), x.arg(1)
            nest = [z3.Implies(z3.And(b > 0, e * y == 1), app == b)]
        return nest + [z3.Implies(x > 0, app > 0), z3.Implies(z3.And(x >= 0), app >= 0),
                z3.Implies(x == 1, app == 1), z3.Implies(z3.And(x == 0, y > 0), app == 0),
                z3.Implies(z3.And(x > 0, y == 0), app == 1),
                z3.Implies(z3.And(x >= 0, y == 1), app == x),
                z3.Implies(z3.And(x >= 1, y >= 0), app >= 1),
                z3.Implies(z3.And(x >= 1, y >= 1), app >= x),
                z3.Implies(z3.And(x >= 0, x <= 1, y >= 0), app <= 1)]
    return []

def pair_axioms(name, apps):
    out = []
    if name in ('log', 'log2', 'exp'):
        for i, a in enumerate(apps):
            for b in apps[i + 1:]:
                x, y = a.arg(0), b.arg(0)
                if name == 'exp':
                    out.append(z3.And((x < y) == (a < b), (x == y) == (a == b)))
                else:
                    out.append(z3.Implies(z3.And(x > 0, y > 0), z3.And((x < y) == (a < b), (x == y) == (a == b))))
                    if name == 'log':      # log x - log y <= x/y - 1
                        out.append(z3.Implies(z3.And(x > 0, y > 0), z3.And((a - b) * y <= x - y, (b - a) * x <= y - x)))
    elif name == 'sqrt':
        for i, a in enumerate(apps):
            for b in apps[i + 1:]:
                x, y = a.arg(0), b.arg(0)
                out.append(z3.Implies(z3.And(x >= 0, y >= 0), z3.And((x < y) == (a < b), (x == y) == (a == b))))
    elif name == 'pow':
        for i, a in enumerate(apps):
            for b in apps[i + 1:]:
                x, y, u, v = a.arg(0), a.arg(1), b.arg(0), b.arg(1)
                out.append(z3.Implies(z3.And(x >= 0, u >= 0, y == v, y > 0), z3.And((x < u) == (a < b), (x == u) == (a == b))))
    return out

class Instantiator:
    def __init__(self, formulas, hints=(), cap=None, merged=False, extra_lemmas=(), without=(), maxgen=None):
        self.without = without
        self.maxgen = maxgen
        self.f = []
        self.ids = set()
        self.facts = Facts()
        self.done_names = set()
        self.done_apps = set()
        self.done_dyn = {}
        self.cap = cap or OPTS['cap']
        self.capped = False
        self.merged = merged
        self.sources = []
        for dk, t in hints:
            self.facts.pool(dk, t)
            if not isinstance(t, int):
                self.facts.add(t)
        for x in formulas:
            self.addf(x)
        self.extra = list(extra_lemmas)

    def terms(self, dk, merged=False):
        ts = self.facts.terms(dk, merged)
        if self.maxgen is not None:
            b = self.facts.born
            ts = [t for t in ts if isinstance(t, int) or b.get(t.get_id(), 0) <= self.maxgen]
        return ts

    def addf(self, x, skip=None):
        if x is True:
            return
        x = t_bool(x)
        i = x.get_id()
        if i in self.ids:
            return
        if len(self.f) > self.cap:
            self.capped = True
            return
        self.ids.add(i)
        self.f.append(x)
        self.facts.add(x, skip)

    def round(self):
        """one instantiation round; returns True when something new was added"""
        n0 = len(self.f)
        fa = self.facts
        fa.gen += 1
        for n in list(fa.names):
            if n not in self.done_names:
                self.done_names.add(n)
                for l in REG.static.get(n, ()):
                    self.addf(l)
                for s in REG.dynamic.get(n, ()):
                    if s not in self.sources:
                        self.sources.append(s)
        for n in list(fa.apps):
            apps = fa.apps[n]
            for i, a in list(apps.items()):
                if (n, i) in self.done_apps:
                    continue
                self.done_apps.add((n, i))
                for l in app_axioms(n, a):
                    self.addf(l)
                al = REG.applemma.get(n)
                if al and n not in self.without:
                    for l in al(a):
                        self.addf(l)
            pf = REG.funclemma.get(n)
            key = ('pairs', n)
            if self.done_dyn.get(key) != len(apps):
                self.done_dyn[key] = len(apps)
                lst = list(apps.values())
                if len(lst) <= 40:
                    for l in pair_axioms(n, lst):
                        self.addf(l)
                if pf:
                    for l in pf(lst, self):
                        self.addf(l)
        for s in list(self.sources):
            try:
                ls = s.lemmas(self)
            except DeadValue:
                continue
            own = getattr(s, 'own', None)
            for l in ls:
                self.addf(l, own)
        for e in self.extra:
            for l in e(self):
                self.addf(l)
        return len(self.f) > n0

TRACE = bool(os.environ.get('VC_TRACE'))
def _solve(formulas, timeout, want_model=False, tactic=None):
    r = _solve_(formulas, timeout, want_model, tactic)
    if TRACE and r[2] > .3: print('   z3 %s %.1fs of %.1f (%d formulas)' % (r[0], r[2], timeout / 1000, len(formulas)), flush=True)
    return r
def _solve_(formulas, timeout, want_model=False, tactic=None):
    STATS.queries += 1
    t0 = time.time()
    s = z3.SolverFor('QF_NRA') if tactic == 'nra' else (z3.Tactic(tactic).solver() if tactic else z3.Solver())
    s.set('timeout', int(timeout))
    for f in formulas:
        s.add(f)
    r = s.check()
    dt = time.time() - t0
    STATS.time += dt
    m = s.model() if r == z3.sat and want_model else None
    return r, m, dt, s

_feas_memo = {}
def quickly_unsat(formulas):
    """unsatisfiable by the formulas and the static facts of their symbols alone"""
    fs = [t_bool(f) for f in formulas if f is not True]
    key = ('quick',) + tuple(sorted(f.get_id() for f in fs))
    hit = _feas_memo.get(key)
    if hit is not None:
        return hit[0]
    fa = Facts()
    for f in fs: fa.add(f)
    done, out = set(), list(fs)
    while True:
        new = [n for n in fa.names if n not in done]
        if not new: break
        for n in new:
            done.add(n)
            for l in REG.static.get(n, ()):
                out.append(l); fa.add(l)
    r = _solve(out, 200)[0] == z3.unsat
    _feas_memo[key] = (r, fs)
    return r

def feasible(formulas, timeout=None):
    """False only when the conjunction is proved unsatisfiable"""
    fs = []
    for f in formulas:
        if f is False:
            return False
        if f is True:
            continue
        fs.append(t_bool(f))
    key = tuple(sorted(f.get_id() for f in fs))
    hit = _feas_memo.get(key)
    if hit is not None:
        return hit[0]
    ins = Instantiator(fs, hints=OPTS['hints'], cap=600, maxgen=1)
    res = True
    t0 = time.time()
    for rnd in range(3):
        more = ins.round() if rnd else True
        r, _, _, _ = _solve(ins.f, timeout or OPTS['feas_timeout'])
        if r == z3.unsat:
            res = False
            break
        if r == z3.unknown or time.time() - t0 > 3:
            break
        if not more:
            break
    _feas_memo[key] = (res, fs)
    return res

class Result:
    def __init__(self, status, model=None, time=0.0, backend='', formulas=None, reason=''):
        self.status, self.model, self.time, self.backend, self.formulas, self.reason = status, model, time, backend, formulas, reason
    @property
    def ok(self):
        return self.status == 'proved'

class _Purify:
    """rewrite formulas into the theory of real arithmetic: uninterpreted real terms become variables (congruence
    axioms added for equal-looking ones are not needed: every formula only weakens), atoms over integers become
    propositional variables.  The result is implied by the input, so 'unsat' carries over."""
    def __init__(self):
        self.cache = {}
        self.keep = []
    def const(self, t, sort):
        v = z3.Const('pv!%d' % t.get_id(), sort)
        return v
    def term(self, t):
        i = t.get_id()
        r = self.cache.get(i)
        if r is None:
            r = self._term(t)
            self.cache[i] = r
            self.keep.append(t)
        return r
    def _term(self, t):
        d = t.decl()
        k = d.kind()
        R = z3.RealSort()
        if z3.is_real(t):
            if z3.is_rational_value(t) or z3.is_algebraic_value(t):
                return t
            if k == z3.Z3_OP_ITE:
                return z3.If(self.term(t.arg(0)), self.term(t.arg(1)), self.term(t.arg(2)))
            if k == z3.Z3_OP_TO_REAL:
                c = z3.simplify(t.arg(0))
                if z3.is_int_value(c):
                    return z3.RealVal(c.as_long())
                a = t.arg(0)
                ak = a.decl().kind()
                if ak == z3.Z3_OP_ADD: return z3.Sum([self.term(z3.ToReal(x)) for x in a.children()])
                if ak == z3.Z3_OP_MUL:
                    r = self.term(z3.ToReal(a.arg(0)))
                    for x in a.children()[1:]: r = r * self.term(z3.ToReal(x))
                    return r
                if ak == z3.Z3_OP_SUB and a.num_args() == 2: return self.term(z3.ToReal(a.arg(0))) - self.term(z3.ToReal(a.arg(1)))
                if ak == z3.Z3_OP_UMINUS: return -self.term(z3.ToReal(a.arg(0)))
                if ak == z3.Z3_OP_ITE: return z3.If(self.term(a.arg(0)), self.term(z3.ToReal(a.arg(1))), self.term(z3.ToReal(a.arg(2))))
                return z3.Const('pi!%d' % a.get_id(), R)
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV):
                if k == z3.Z3_OP_DIV and not z3.is_rational_value(z3.simplify(t.arg(1))):
                    return self.const(t, R)
                return d(*[self.term(c) for c in t.children()])
            if t.num_args() == 0:
                return t
            return self.const(t, R)
        if z3.is_bool(t):
            if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
                ch = [self.term(c) for c in t.children()]
                if k == z3.Z3_OP_AND: return z3.And(*ch)
                if k == z3.Z3_OP_OR: return z3.Or(*ch)
                return d(*ch)
            if k == z3.Z3_OP_ITE or (k == z3.Z3_OP_EQ and z3.is_bool(t.arg(0))) or (k == z3.Z3_OP_DISTINCT and z3.is_bool(t.arg(0))):
                ch = [self.term(c) for c in t.children()]
                return z3.If(*ch) if k == z3.Z3_OP_ITE else (ch[0] == ch[1] if k == z3.Z3_OP_EQ else z3.Xor(ch[0], ch[1]))
            if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
                a, b = t.arg(0), t.arg(1)
                if z3.is_int(a):
                    a, b = z3.ToReal(a), z3.ToReal(b)
                elif not z3.is_real(a):
                    return self.const(t, z3.BoolSort())
                a, b = self.term(a), self.term(b)
                return {z3.Z3_OP_LE: a.__le__, z3.Z3_OP_LT: a.__lt__, z3.Z3_OP_GE: a.__ge__, z3.Z3_OP_GT: a.__gt__, z3.Z3_OP_EQ: a.__eq__}[k](b)
            if t.num_args() == 0 and k == z3.Z3_OP_UNINTERPRETED:
                return t
            return self.const(t, z3.BoolSort())
        raise ValueError

def nra(formulas, timeout):
    try:
        pu = _Purify()
        fs = [z3.simplify(pu.term(z3.simplify(f))) for f in formulas]
    except (ValueError, z3.Z3Exception, KeyError):
        return z3.unknown
    STATS.queries += 1
    t0 = time.time()
    s = z3.Then('simplify', 'propagate-values', z3.With('solve-eqs'), z3.With('simplify', som=True), 'purify-arith', 'elim-term-ite', 'solve-eqs', 'qfnra').solver() if 0 else z3.SolverFor('QF_NRA')
    s.set('timeout', int(timeout))
    for f in fs:
        s.add(f)
    r = s.check()
    STATS.time += time.time() - t0
    if TRACE: print('   nra %s %.1fs' % (r, time.time() - t0), flush=True)
    return r

def cvc5_check(formulas, timeout):
    s = z3.Solver()
    for f in formulas:
        s.add(f)
    text = '(set-logic ALL)\n' + re.sub(r'(?<=[( ])(sqrt|exp|log|log2|pow|gamma)(?=[ )])', r'\1_', s.to_smt2())
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
        fh.write(text)
        path = fh.name
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout), path], capture_output=True, text=True, timeout=timeout / 1000 + 5)
        return p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(path)

def prove(goal, pc, hints=(), timeout=None, rounds=None, cap=None, extra_lemmas=(), without=(), maxgen=()):
    timeout = timeout or OPTS['timeout']
    rounds = rounds or OPTS['rounds']
    t0 = time.time()
    g = simp(goal) if not isinstance(goal, bool) else goal
    if g is True:
        return Result('proved', backend='simplifier')
    fs = [t_bool(f) for f in pc if f is not True] + [t_bool(t_not(goal))]
    last = None
    for g in ((maxgen,) if isinstance(maxgen, int) else maxgen):
        # index terms of the first g rounds only: fewer instances, so only 'proved' counts
        lean = [f for f in fs if f.get_id() not in REG.background]
        ins = Instantiator(lean, hints=list(hints) + OPTS['hints'], cap=cap, extra_lemmas=extra_lemmas, without=without, maxgen=g)
        for rnd in range(rounds + 1):
            more = ins.round()
            last_round = not more or rnd == rounds
            r, m, dt, s = _solve(ins.f, 9000 if last_round else 2500)
            if r == z3.unsat:
                return Result('proved', time=time.time() - t0, backend='z3', formulas=ins.f)
            if r == z3.unknown and nra(ins.f, 9000 if last_round else 1500) == z3.unsat:
                return Result('proved', time=time.time() - t0, backend='z3-nra', formulas=ins.f)
            if last_round: break
    for merged in (False, True):
        ins = Instantiator(fs, hints=list(hints) + OPTS['hints'], cap=cap, merged=merged, extra_lemmas=extra_lemmas, without=without)
        sat_model = None
        status = 'unknown'
        for rnd in range(rounds + 1):
            more = ins.round()
            if more and rnd < rounds and rnd >= 0:
                # cheap attempts on the way
                r, m, dt, s = _solve(ins.f, min(timeout, 900))
                if r == z3.unsat:
                    return Result('proved', time=time.time() - t0, backend='z3', formulas=ins.f)
                if r == z3.unknown:
                    r2 = nra(ins.f, 1500 if rnd < 2 else 4000)
                    if r2 == z3.unsat:
                        return Result('proved', time=time.time() - t0, backend='z3-nra', formulas=ins.f)
                    if r2 == z3.unknown or rnd:
                        r, m, dt, s = _solve(ins.f, min(timeout, 1500 if rnd == 0 else 4000))
                        if r == z3.unsat:
                            return Result('proved', time=time.time() - t0, backend='z3', formulas=ins.f)
                continue
            break
        r, m, dt, s = _solve(ins.f, min(timeout, 3000), want_model=True)
        if r == z3.unknown:
            if nra(ins.f, min(timeout, 6000)) == z3.unsat:
                return Result('proved', time=time.time() - t0, backend='z3-nra', formulas=ins.f)
            if timeout > 3000:
                r, m, dt, s = _solve(ins.f, timeout, want_model=True)
            if r == z3.unknown and timeout > 6000 and nra(ins.f, timeout) == z3.unsat:
                return Result('proved', time=time.time() - t0, backend='z3-nra', formulas=ins.f)
        if r == z3.unsat:
            return Result('proved', time=time.time() - t0, backend='z3', formulas=ins.f)
        if r == z3.sat:
            last = Result('refuted' if not ins.capped else 'unknown', model=m, time=time.time() - t0, backend='z3', formulas=ins.f,
                          reason='counter-model after ground instantiation' + (' (capped)' if ins.capped else ''))
        else:
            reason = s.reason_unknown()
            if OPTS['cvc5']:
                r2 = cvc5_check(ins.f, timeout)
                if r2 == 'unsat':
                    return Result('proved', time=time.time() - t0, backend='cvc5', formulas=ins.f)
            last = Result('unknown', time=time.time() - t0, backend='z3', formulas=ins.f, reason=reason)
        if not merged and len(ins.facts.pools) <= 1:
            break
    last.time = time.time() - t0
    return last
