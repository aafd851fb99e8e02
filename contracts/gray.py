"""Gray-code maze: dependency contracts shared by C06-C09.

GrayCode(n) (sympy): generate_gray() yields the 2^n bit strings of length n, pairwise different, consecutive ones
differing in exactly one place.  DiGraph (networkx): the set of recorded nodes and edges; predecessors(x) / successors(x)
list the other ends of the edges into / out of x, KeyError-like failure for an unknown x."""
from vc.spec import *
from vc import arr as A, sym, nps, prover
from vc.sym import decide, ctx, REG, fresh_name, simpi, intt, take_mark, travel
from vc.arr import Seq, JList, as_seq, nix, iterm
from vc.engine import is_symseq
import z3, types

class Bit:
    """one character, '0' or '1'"""
    def __init__(self, b): self.b = b
    def _as_int(self): return self.b
    def __eq__(self, o): return eq(self.b, int(o)) if o in ('0', '1') else False
    def __ne__(self, o): return not_(self == o)
    __hash__ = None

_simp = {}
def _key(t):
    k = t.get_id()
    if k not in _simp: _simp[k] = (t, z3.simplify(t))
    return _simp[k][1]
def neighbours(apps, inst, tag, lemma):
    """lemma(p, q, j) for the pairs of applications f(p, j), f(q, j) with q possibly p + 1"""
    done = inst.done_dyn.setdefault(('neighbours', tag), set())
    groups, out = {}, []
    for x in apps:
        groups.setdefault(_key(x.arg(1)).get_id(), []).append(x)
    for xs in groups.values():
        for x in xs:
            for y in xs:
                k = (x.get_id(), y.get_id())
                if x is y or k in done: continue
                done.add(k)
                p, q = x.arg(0), y.arg(0)
                e = _key(q - p)
                if z3.is_int_value(e) and e.as_long() != 1: continue
                out.append(lemma(p, q, x.arg(1)))
    return out

class Code:
    """contract of the reflected Gray code on n bits"""
    def __init__(self, n):
        self.n = mkdim(n)
        nm = fresh_name('gray')
        I = z3.IntSort()
        self.N = Num(z3.Int('N' + nm), kind='i')
        self.f = z3.Function('b' + nm, I, I, I)
        self.flip = z3.Function('flip' + nm, I, I)          # the place in which word r+1 differs from word r
        self.sep = z3.Function('sep' + nm, I, I, I)         # a place in which two different words differ
        self.nm = nm
        nt = intt(dterm(self.n))
        REG.add_static('N' + nm, intt(dterm(mkdim(self.N))) >= 2)
        self.dim = mkdim(self.N)
        REG.funcdom[self.f.name()] = (None, domkey(self.n))
        f, flip, sep, N = self.f, self.flip, self.sep, intt(dterm(self.dim))
        inr = lambda r: z3.And(r >= 0, r < N)
        ink = lambda j: z3.And(j >= 0, j < nt)
        # the first word is all zeros, the second one differs in the last place
        REG.applemma[f.name()] = lambda a: [z3.And(a >= 0, a <= 1), z3.Implies(z3.And(a.arg(0) == 0, ink(a.arg(1))), a == 0)]
        REG.add_static('N' + nm, flip(z3.IntVal(0)) == nt - 1)
        def flips(a):
            r = a.arg(0)
            return [z3.Implies(z3.And(inr(r), r + 1 < N), z3.And(ink(a), f(r + 1, a) == 1 - f(r, a)))]
        REG.applemma[flip.name()] = flips
        def seps(a):
            r, s = a.arg(0), a.arg(1)
            return [z3.Implies(z3.And(inr(r), inr(s), r != s), z3.And(ink(a), f(r, a) != f(s, a)))]
        REG.applemma[sep.name()] = seps
        def agree(apps, inst):
            return neighbours(apps, inst, nm, lambda r, s, j: z3.Implies(z3.And(s == r + 1, inr(r), inr(s), ink(j), j != flip(r)), f(r, j) == f(s, j)))
        REG.funclemma[f.name()] = agree
    def bit(self, r, j):
        return Num(self.f(intt(iterm(r)), intt(iterm(j))), kind='i')
    def words(self):
        return Seq(self.dim, lambda r: Seq(self.n, lambda j: Bit(self.bit(r, j)), tup=True))
class GrayStub:
    codes = None
    def __init__(self, v): self.v, self.made = v, []
    def __call__(self, n, *a, **k):
        c = Code(n)
        self.made.append((n, c))
        class G:
            def generate_gray(s, **kw):
                return c.words()
        return G()


class DiGraphRec:
    """contract of networkx.DiGraph: what was recorded, in order"""
    def __init__(self, *a):
        self.nodes_, self.edges_ = JList(), JList()
        if len(a) == 1 and (isinstance(a[0], list) or is_symseq(a[0])): self.edges_.extend(a[0])
        elif a and a[0] is not None: raise Unsupported('DiGraph built from data')
    def add_nodes_from(self, it): self.nodes_.extend(it)
    def add_edges_from(self, it): self.edges_.extend(it)
    def add_node(self, x): self.nodes_.append(x)
    def add_edge(self, a, b): self.edges_.append((a, b))

class NX:
    def __init__(self, graph=DiGraphRec): self.DiGraph = graph
    def add_path(self, g, nodes):
        s = as_seq(nodes)
        g.add_edges_from(Seq(mkdim(intt(dterm(s.n)) - 1), lambda k: (s.at(k), s.at(simpi(intt(iterm(k)) + 1)))))
    def __getattr__(self, n): raise Unsupported('networkx.%s' % n)

import types
def load(v, st, nx):
    ns = types.SimpleNamespace(GrayCode=st)
    v.eng.stubs['sympy.combinatorics.graycode'] = v.eng.stubs['sympy.combinatorics'] = ns
    v.eng.stubs['networkx'] = nx
    return v.eng.load('nonasymptotic/envs.py')

# ---- the corridor as its contract (C06): used by the functions that rely on it
class Corridor:
    """cells 0..M-1, pairwise different, consecutive ones one step apart along axis w(p), the first one at the origin"""
    def __init__(self, v, dim, length, M):
        self.v, self.d, self.M = v, mkdim(dim), mkdim(M)
        nm = fresh_name('cell')
        I = z3.IntSort()
        self.f, self.w, self.s, self.sep = z3.Function('c' + nm, I, I, I), z3.Function('w' + nm, I, I), z3.Function('s' + nm, I, I), z3.Function('sep' + nm, I, I, I)
        f, w, s, sep = self.f, self.w, self.s, self.sep
        D, N, Lt = intt(dterm(self.d)), intt(dterm(self.M)), intt(lift(length).fin)
        self.D, self.N = D, N
        inp = lambda p: z3.And(p >= 0, p < N)
        ink = lambda k: z3.And(k >= 0, k < D)
        REG.funcdom[f.name()] = (None, domkey(self.d))
        def cellax(a):
            p, k = a.arg(0), a.arg(1)
            return [z3.Implies(z3.And(inp(p), ink(k)), z3.And(a >= 0, a < z3.If(k == 0, Lt, z3.IntVal(2)))), z3.Implies(z3.And(p == 0, ink(k)), a == 0)]
        REG.applemma[f.name()] = cellax
        def step(a):
            p = a.arg(0)
            return [z3.Implies(z3.And(inp(p), p + 1 < N), z3.And(ink(a), z3.Or(s(p) == 1, s(p) == -1), f(p + 1, a) == f(p, a) + s(p)))]
        REG.applemma[w.name()] = step
        REG.applemma[s.name()] = lambda a: step(w(a.arg(0)))
        def pairs(apps, inst):
            return neighbours(apps, inst, nm, lambda p, q, j: z3.Implies(z3.And(q == p + 1, inp(p), inp(q), ink(j), j != w(p)), f(p, j) == f(q, j)))
        REG.funclemma[f.name()] = pairs
        self.apart = True       # state that a cell that comes up differs from the others
        self.known = []         # positions of cells that have come up
        self.flips = []
    def first_step(self):
        """the corridor leaves the first cell along the last axis, upwards"""
        ctx().assume(z3.And(self.w(z3.IntVal(0)) == self.D - 1, self.s(z3.IntVal(0)) == 1))
    def val(self, p, k): return Num(self.f(intt(iterm(p)), intt(iterm(k))), kind='i')
    def axis(self, p): return Num(self.w(intt(p)), kind='i')
    def sign(self, p): return Num(self.s(intt(p)), kind='i')
    def differ(self, p, q):
        """lemma: different positions hold different cells"""
        p, q = intt(p), intt(q)
        k = self.sep(p, q)
        return z3.Implies(z3.And(p >= 0, p < self.N, q >= 0, q < self.N, p != q), z3.And(k >= 0, k < self.D, self.f(p, k) != self.f(q, k)))
    def note(self, p):
        p = simpi(intt(iterm(p)))
        if not any(intt(p).eq(intt(q)) for q in self.known):
            for q in self.known if self.apart else (): ctx().assume(self.differ(p, q))
            self.known.append(p)
        return p
    def cell(self, p):
        p = self.note(p)
        s = Seq(self.d, lambda k: self.val(p, k), tup=True)
        s._pos = p
        return s
    def list(self):
        s = Seq(self.M, lambda p: self.cell(p))
        if isinstance(self.M, int): return s
        l = JList(s)
        # the cells are pairwise different, so the first position is the only one
        def index(key):
            if l.seq is not s: raise Unsupported('index in a changed list of cells')
            return Num(intt(self.locate(key)), kind='i')
        l.index = index
        return l
    def locate(self, key):
        if getattr(key, '_pos', None) is not None: return key._pos
        ks = as_seq(key)
        k, kc = skolem(self.d, 'k')
        g = None
        same = _key(intt(lift(ks.at(k)).fin)) if lift(ks.at(k)).kind == 'i' and not lift(ks.at(k)).special() else None
        for p in list(self.known):
            if same is not None and same.eq(_key(self.f(intt(p), intt(iterm(k))))): return p
        for p in list(self.known):
            g = t_imp(kc, t_bool(as_t(eq(ks.at(k), self.val(p, k)))))
            if prover.prove(t_bool(g), ctx().full_pc(), timeout=5000).ok: return p
        raise Unsupported('a cell that is not known to be in the maze')
    def axis_of(self, x):
        """position of the only non-zero entry of a difference of neighbouring cells"""
        x = asarr(x)
        k, kc = skolem(self.d, 'k')
        same, f = _key(lift(x.at(k)).fin), lambda p: self.f(intt(p), intt(iterm(k)))
        for p in list(self.known):
            n = simpi(intt(p) + 1)
            if any(same.eq(_key(t)) for t in (f(n) - f(p), f(p) - f(n))) and prover.prove(z3.And(intt(p) >= 0, intt(n) < self.N), ctx().full_pc(), timeout=2000).ok: return self.w(intt(p))
        for p in list(self.known):
            for q in (simpi(intt(p) - 1), p):
                w = self.w(intt(q))
                xk, xw = as_t(ne(x.at(k), 0)), as_t(ne(x.at(w), 0))
                g = z3.And(w >= 0, w < self.D, t_bool(xw), t_bool(t_imp(t_and(kc, xk), intt(iterm(k)) == w)))
                if prover.prove(g, ctx().full_pc(), timeout=5000).ok: return w
        return None

class Walk:
    """contract of networkx.DiGraph on the passage graph: an iterator over the neighbours, in edge order"""
    def __init__(self, items): self.it = iter(items)
    def __iter__(self): return self
    def __next__(self): return next(self.it)
    def _concrete_iter(self): return list(self.it)

class Passages:
    def __init__(self, c): self.c = c
    def predecessors(self, x):
        p = self.c.locate(x)
        return Walk([self.c.cell(simpi(intt(p) - 1))] if decide(t_bool(simp(intt(p) > 0))) else [])
    def successors(self, x):
        p = self.c.locate(x)
        return Walk([self.c.cell(simpi(intt(p) + 1))] if decide(t_bool(simp(intt(p) + 1 < self.c.N))) else [])
    def __getattr__(self, n): raise Unsupported('DiGraph.%s' % n)

def maze(v, dim, length, th, first=False, nx=None):
    """-> make(): a maze whose corridor is known by its contract only"""
    st = GrayStub(v)
    m = load(v, st, nx or NX())
    npm = m._ns['np']
    box = {}
    real = npm.where
    def where(c, *a):
        if a: return real(c, *a)
        w = box['c'].axis_of(c) if 'c' in box and isinstance(c, Arr) and c.ndim == 1 else None
        if w is None: return real(c)
        return (Arr((1,), lambda ix: Num(w, kind='i', np=True), 'i'),)
    npm.where = npm.nonzero = where
    def place(c): return box['c'].axis_of(c) if 'c' in box and isinstance(c, Arr) and c.ndim == 1 else None
    real_flat, real_max = npm.flatnonzero, npm.argmax
    def flatnonzero(c):
        w = place(c)
        return real_flat(c) if w is None else Arr((1,), lambda ix: Num(w, kind='i', np=True), 'i')
    def argmax(c, *a, **k):
        w = place(c) if not a and not k else None
        if w is not None and prover.prove(T(asarr(c)[Num(w, kind='i')] > 0), ctx().full_pc(), timeout=3000).ok: return Num(w, kind='i', np=True)
        return real_max(c, *a, **k)
    npm.flatnonzero, npm.argmax = flatnonzero, argmax
    def make():
        del st.made[:]
        env = m.GrayCodeWalls(dim, length, th, 0)
        n, code = st.made[0]
        M = v.int('cells', 2)
        v.require(eq(M, length * Num(intt(dterm(code.dim)), kind='i')))
        v.ensure('as many cells as the corridor lists', eq(lift(env.n_nodes), M))
        c = Corridor(v, dim, length, M)
        box['c'] = c
        if first: c.first_step()
        env.no_walls_linear_list = c.list()
        env.no_walls_graph = Passages(c)
        return env, c
    return m, make
