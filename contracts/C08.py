"""GrayCodeWalls.is_motion_valid over an arbitrary corridor.

The loop walks from the cell of the start to the cell of the goal.  Loop invariant at a cell (position p, walking in
direction sigma): the current point x lies on the segment, between the start and the goal; wherever a coordinate of x is
outside the closed cell p, the rest of the segment moves further away on that side.  (A division by zero leaves the walk
without a point: every coordinate undefined; such a walk must be rejected.)

`accepted`: one step of the walk moves x forward along the segment to the face shared by the cells p and p + sigma, both
ends of the step keep the wall thickness from every wall of the cell p, and a point once outside its cell stays so.  An accepted
walk ends in the cell of the goal, with both ends of the last piece inside that cell and clear of its walls: so no point
was ever outside its cell, and the pieces, each inside a (convex) cell and clear of its walls, make up the segment.

`free`: the segment crosses the cells p0 .. q in corridor order at points e(p0) = start, e(p0 + sigma), .. e(q): a line
meets each convex cell in one interval and may only pass through open faces of a corridor, which is a path.  Each piece
is inside its closed cell and keeps a positive margin, beyond the wall thickness, from its walls.  Invariant: the current
point is e(p).  The walk never gives up."""
from vc.spec import *
from vc.sym import decide, ctx, simpi, intt, REG, fresh_name, PathEnd, Unsupported
from vc import arr as A, prover, nps
from vc.arr import as_seq, iterm, Seq
from vc.loops import LoopContract, Poison, is_poison
from contracts.gray import *
from contracts import gray, C06, C07
from contracts.C07 import low_wall, high_wall, open_faces
import z3, types

class Holder:
    def __init__(self, items): self.items = items
    def __contains__(self, x): return self.items(x)

class Walkable(gray.NX):
    """contract of the walks networkx offers on the passage graph (a path, from the first cell to the last)"""
    def __init__(self):
        gray.NX.__init__(self)
        self.c = None
    def later(self, a, b): return mkb(simp(intt(self.c.locate(b)) > intt(self.c.locate(a))))
    def dfs_successors(self, G, source=None, depth_limit=None):
        if depth_limit is not None: raise Unsupported('depth limit')
        w, a = self, source
        class D:
            def values(s):
                def has(x):
                    x = list(x)
                    return decide(T(w.later(a, x[0]))) if len(x) == 1 else False
                return Holder(has)
        return D()
    def descendants(self, G, a): return Holder(lambda b: decide(T(self.later(a, b))))
    def ancestors(self, G, a): return Holder(lambda b: decide(T(self.later(b, a))))
    def has_path(self, G, a, b): return not_(self.later(b, a))

def in_cell(c, p, x): return lambda k: and_(x[k] >= c.val(p, k.fin), x[k] <= c.val(p, k.fin) + 1)
def clear(c, p, x, th): return lambda k: and_(imp(low_wall(c, p, k), x[k] >= c.val(p, k.fin) + th), imp(high_wall(c, p, k), x[k] <= c.val(p, k.fin) + 1 - th))
def special(x):
    return lift(x.at(skolem(x.shape_[0], 'k')[0])).special()

class World(LoopContract):
    def __init__(self, v, m, env, c, dim, th, mode):
        self.v, self.m, self.env, self.c, self.dim, self.th, self.mode = v, m, env, c, dim, th, mode
        self.p0, self.q = simpi(intt(v.int('p', 0).fin)), simpi(intt(v.int('q', 0).fin))
        for p in (self.p0, self.q): ctx().assume(intt(p) < c.N)
        self.margin = v.real('margin', gt=0)
    def places(self, which):
        """start cell before, after, or the same as the goal cell"""
        a, b = intt(self.p0), intt(self.q)
        self.sigma = {'forwards': 1, 'backwards': -1, 'one cell': 0}[which]
        if self.sigma == 0: self.p0 = self.q
        else: ctx().assume(a < b if self.sigma > 0 else a > b)
        self.c.apart = False
        self.c.note(self.p0); self.c.note(self.q)
        self.S, self.G = self.inside(self.p0, 'start'), self.inside(self.q, 'goal')
        self.state = ('at', self.p0, self.S)
        if self.mode == 'free':
            self.e = z3.Function(fresh_name('cross'), z3.IntSort(), z3.IntSort(), z3.RealSort())
            self.u = z3.Function(fresh_name('part'), z3.IntSort(), z3.RealSort())
            REG.funcdom[self.e.name()] = (None, domkey(mkdim(self.dim)))
            ctx().assume(T(forall(self.dim, lambda k: eq(Num(self.e(intt(self.p0), intt(iterm(k.fin))), kind='f'), self.S[k]))))
            for p in (self.q,): ctx().assume(T(forall(self.dim, lambda k: and_(self.free(self.q, self.G)(k), self.free(self.q, self.pt(self.q))(k)))))
    def free(self, p, x): return lambda k: and_(in_cell(self.c, p, x)(k), clear(self.c, p, x, self.th + self.margin)(k))
    def pt(self, p): return Arr((mkdim(self.dim),), lambda ix: Num(self.e(intt(p), intt(iterm(ix[0]))), kind='f'), 'f')
    def inside(self, p, name):
        """a point strictly inside the cell"""
        f = nps.sym_arr(name, (self.dim,), 'f', fact=lambda ix, a: z3.And(a > z3.ToReal(self.c.f(intt(p), ix[0])), a < z3.ToReal(self.c.f(intt(p), ix[0])) + 1))
        return f
    def slabs(self, p, q):
        """the corridor fills the slabs along the first axis in order"""
        c, a, b, z = self.c, intt(p), intt(q), z3.IntVal(0)
        inr = z3.And(a >= 0, a < c.N, b >= 0, b < c.N)
        return z3.Implies(inr, z3.And(z3.Implies(a <= b, c.f(a, z) <= c.f(b, z)), z3.Implies(b <= a, c.f(b, z) <= c.f(a, z))))
    def wall_distance(self, real):
        def f(cube, x):
            p = self.c.locate(cube)
            x = asarr(x)
            if special(x): return real(cube, x)
            D = Num(z3.Real(fresh_name('D')), kind='f', np=True)
            o = lambda k: self.c.val(p, k.fin)
            ctx().assume(T(forall(self.dim, lambda k: and_(imp(low_wall(self.c, p, k), D <= x[k] - o(k) - self.th), imp(high_wall(self.c, p, k), D <= o(k) + 1 - x[k] - self.th)))))
            j, jc = skolem(mkdim(self.dim), 'wall')
            ctx().assume(t_bool(jc))
            j = inum(j)
            ctx().assume(T(or_(and_(low_wall(self.c, p, j), eq(D, x[j] - o(j) - self.th)), and_(high_wall(self.c, p, j), eq(D, o(j) + 1 - x[j] - self.th)))))
            return D
        return f
    def floor(self, real):
        """a point inside a cell rounds down to the cell"""
        def f(x, *a, **kw):
            if isinstance(x, Arr) and len(x.shape_) == 1 and not a and not kw:
                k, kc = skolem(x.shape_[0], 'k')
                for p in ((self.p0,) if x is self.S else (self.q,) if x is self.G else (self.p0, self.q)):
                    o = self.c.val(p, k)
                    if shape_is(x, (self.dim,)) is not False and prover.prove(t_imp(kc, T(and_(x.at(k) >= o, x.at(k) < o + 1))), ctx().full_pc(), timeout=2000).ok:
                        return Arr((mkdim(self.dim),), lambda ix: Num(z3.ToReal(self.c.val(p, ix[0]).fin), kind='f'), 'f')
            return real(x, *a, **kw)
        return f
    # ---- the walk
    def kind(self, x):
        if isinstance(x, Arr) and len(x.shape_) == 1 and x.kind == 'f': return 'point'
        if isinstance(x, Arr) and len(x.shape_) == 1 and x.kind == 'i': return 'cell'
        if isinstance(x, Seq) and getattr(x, '_pos', None) is not None: return 'tuple'
        return None
    def match_while(self, rt, cond, body, get, set_, names, lid):
        pre = get()
        ks = {n: self.kind(pre[n]) for n in names if n in pre and not is_poison(pre[n])}
        pts, cells = [n for n in ks if ks[n] == 'point'], [n for n in ks if ks[n] in ('cell', 'tuple')]
        if len(pts) != 1 or len(cells) != 1: return None
        return (self.run(rt, cond, body, get, set_, names, pts[0], cells[0], pre, ks),)
    def where(self, x): return self.c.locate(x)
    def next(self, p, s=None): return simpi(intt(p) + (self.sigma if s is None else s))
    def face(self, p):
        """axis and coordinate of the face between the cells p and p + sigma"""
        c, lo = self.c, intt(p) if self.sigma > 0 else intt(p) - 1
        w, s = c.w(lo), c.s(lo)
        return w, ((c.val(p, w) + num(0.5)) + (c.val(self.next(p), w) + num(0.5))) / 2
    def run(self, rt, cond, body, get, set_, names, X, C, pre, ks):
        v, c, dim, th, G = self.v, self.c, self.dim, self.th, self.G
        k0 = v.idx(dim, 'k')
        v.ensure('the walk begins at the start of the motion', eq(pre[X][k0], self.S[k0]))
        v.ensure('the walk begins in the cell of the start', eq(asarr(pre[C])[k0], c.val(self.p0, k0.fin)))
        if self.sigma == 0: return self.go(cond, body, get, X, C, pre, None)
        p = simpi(z3.Int(fresh_name('at')))
        lo, hi = sorted((self.p0, self.q), key=lambda t: (t is self.q) == (self.sigma > 0))
        ctx().assume(z3.And(intt(p) >= intt(lo), intt(p) <= intt(hi)))
        if decide(intt(p) == intt(self.q)): p = self.q
        else:
            c.note(p)
            ctx().assume(c.differ(p, self.q))
        if self.mode == 'free': state = ('at', p, self.pt(p))
        elif decide(z3.Bool(fresh_name('lost'))):
            u = {n: z3.Function(fresh_name('lost_' + n), z3.IntSort(), z3.BoolSort()) for n in 'npm'}
            for f in u.values(): REG.funcdom[f.name()] = (domkey(mkdim(dim)),)
            one = lambda a: [z3.PbEq([(f(a.arg(0)), 1) for f in u.values()], 1)]
            for f in u.values(): REG.applemma[f.name()] = one
            j, jc = skolem(mkdim(dim), 'lost')
            ctx().assume(t_and(jc, u['n'](intt(iterm(j)))))
            self.lostat = j
            x = Arr((mkdim(dim),), lambda ix: Num(z3.RealVal(0), u['n'](intt(iterm(ix[0]))), u['p'](intt(iterm(ix[0]))), u['m'](intt(iterm(ix[0]))), 'f', np=True), 'f')
            state = ('lost', p, x)
        else:
            g = lambda ix: G.at(ix[0])
            def fact(ix, a):
                o, gk = z3.ToReal(c.f(intt(p), ix[0])), lift(G.at(ix[0])).r()
                return z3.And(z3.Implies(a < o, gk <= a), z3.Implies(a > o + 1, gk >= a))
            state = ('at', p, nps.sym_arr('x', (dim,), 'f', fact=fact))
        for n in names:
            if n not in (X, C): set_(n, Poison(n))
        set_(X, state[2])
        set_(C, c.cell(p) if ks[C] == 'tuple' else Arr((mkdim(dim),), lambda ix: c.val(p, ix[0]), 'i'))
        self.state = state
        if self.mode == 'free' and p is not self.q:
            n = self.next(p)
            u = Num(self.u(intt(p)), kind='f')
            a, b = self.pt(p), self.pt(n)
            ctx().assume(T(and_(u >= 0, u <= 1)))
            ctx().assume(T(forall(dim, lambda k: and_(self.free(p, a)(k), self.free(p, b)(k), self.free(n, b)(k), eq(b[k], a[k] + u * (G[k] - a[k]))))))
            w, plane = self.face(p)
            w = Num(w, kind='i')
            for label, g in (('a crossing lies on the face shared by its cells', eq(b[w], plane)), ('the goal is not level with the face', ne(G[w], plane)), ('the segment is not parallel to the face', ne(G[w], a[w])),
                    ('the crossing is where the segment meets the face', eq((plane - a[w]) / (G[w] - a[w]), u))):
                v.ensure(label, g)
                ctx().assume(T(g))
        if state[0] == 'at' and p is not self.q:
            w, _ = self.face(p)
            decide(T(eq(G[Num(w, kind='i')], state[2][Num(w, kind='i')])))
        return self.go(cond, body, get, X, C, pre, state)
    def go(self, cond, body, get, X, C, pre, state):
        v, c, dim, th, G = self.v, self.c, self.dim, self.th, self.G
        if not cond(): return None
        r = body()
        if r[0] == 'break': return None
        if r[0] != 'next': return r
        if state is None:
            v.ensure('a motion inside one cell takes no step', False)
            raise PathEnd()
        mode, p, x = state
        if p is self.q or mode == 'lost':
            v.ensure('a walk that has lost the segment takes no further step' if mode == 'lost' else 'the walk stops in the cell of the goal', False)
            raise PathEnd()
        post = get()
        y, n = post[X], self.next(p)
        k = v.idx(dim, 'k')
        if not isinstance(y, Arr) or not shape_is(y, (dim,)): raise Unsupported('the point of the walk changes form')
        v.ensure('a step leads to the next cell of the corridor towards the goal', eq(asarr(post[C])[k], c.val(n, k.fin)))
        w, plane = self.face(p)
        a = Num(w, kind='i')
        if self.mode == 'free':
            v.ensure('the walk follows a free motion from crossing to crossing', eq(y[k], self.pt(n)[k]))
            raise PathEnd()
        if special(y):
            v.ensure('a step without a crossing loses every coordinate', not_(finite(y[k])))
            v.ensure('a step without a crossing has an undefined coordinate', mkb(lift(y[a]).nan))
            raise PathEnd()
        t = (plane - x[a]) / (G[a] - x[a])
        v.ensure('a step ends on the face shared with the next cell', eq(y[a], plane))
        v.ensure('a step moves along the segment', eq(y[k], x[k] + t * (G[k] - x[k])))
        v.ensure('a step moves forward', t >= 0)
        v.ensure('both ends of a step keep the wall thickness from every wall of the cell', and_(clear(c, p, x, th)(k), clear(c, p, y, th)(k)))
        v.ensure('a step past the goal has the goal between its ends', imp(t > 1, between(x[k], G[k], y[k])))
        ctx().assume(T(t <= 1))         # lemma [no step passes the goal]
        v.ensure('a step stops between its beginning and the goal', between(x[k], y[k], G[k]))
        # lemma [steps]: the invariant holds at the next cell
        raise PathEnd()

def between(a, b, c): return or_(and_(a <= b, b <= c), and_(a >= b, b >= c))

def lemma(which, sigma):
    """about any corridor: p a cell of it other than the one of the goal G, n the next one towards the goal; x, y points
    clear of the walls of p, y on the face shared by p and n; wherever x is outside p, the goal is further out"""
    def f(v):
        dim, length, th = v.dim('dim', 2), v.dim('length', 1), v.real('thickness', lo=0, lt=0.5)
        x, y, G = (v.arr(n, (dim,)) for n in 'xyG')
        M = v.int('cells', 2)
        def path():
            c = Corridor(v, dim, length, M)
            w = World(v, None, None, c, dim, th, None)
            w.sigma = sigma
            p, q = w.p0, w.q
            ctx().assume(intt(p) < intt(q) if sigma > 0 else intt(p) > intt(q))
            n = w.next(p)
            ax, plane = w.face(p)
            a = Num(ax, kind='i')
            ALL = lambda g: ctx().assume(T(forall(dim, g)))
            o = lambda p, k: c.val(p, k.fin)
            ctx().assume(c.differ(p, q)); ctx().assume(c.differ(q, w.next(p, -w.sigma))); ctx().assume(w.slabs(p, q)); ctx().assume(w.slabs(w.next(p, -w.sigma), p))
            ALL(lambda k: and_(G[k] > o(q, k), G[k] < o(q, k) + 1))
            ALL(lambda k: and_(imp(x[k] < o(p, k), G[k] <= x[k]), imp(x[k] > o(p, k) + 1, G[k] >= x[k])))
            ALL(lambda k: and_(clear(c, p, x, th)(k), clear(c, p, y, th)(k)))
            ctx().assume(T(and_(eq(y[a], plane), ne(G[a], x[a]))))
            if which == 'no step passes the goal':
                ks = [c.sep(intt(p), intt(q)), c.sep(intt(q), intt(w.next(p, -w.sigma))), ax, c.w(intt(p)), c.w(intt(p) - 1), z3.IntVal(0)]
                v.ensure('a step cannot pass the goal', not_(forall(dim, lambda k: between(x[k], G[k], y[k]))), hints=[(domkey(mkdim(dim)), t) for t in ks])
                return
            ALL(lambda k: between(x[k], y[k], G[k]))
            k = v.idx(dim, 'k')
            v.ensure('a point outside its cell is left behind by the rest of the segment', and_(imp(y[k] < o(n, k), G[k] <= y[k]), imp(y[k] > o(n, k) + 1, G[k] >= y[k])))
            v.ensure('a walk that has left its cell never gets back', imp(not_(in_cell(c, p, x)(k)), not_(in_cell(c, n, y)(k))))
            v.ensure('a step from inside its cell to inside the next one stays in the cell', imp(and_(in_cell(c, p, x)(k), in_cell(c, n, y)(k)), in_cell(c, p, y)(k)))
        v.explore(path)
    return f

def motion(mode, which):
    def f(v):
        dim, length, th = v.dim('dim', 2), v.dim('length', 1), v.real('thickness', lo=0, lt=0.5)
        nx = Walkable()
        v.nx = nx
        m, make = maze(v, dim, length, th, nx=nx)
        box, real = {}, {}
        class Route(LoopContract):
            def match_while(s, *a): return box['w'].match_while(*a) if 'w' in box else None
        v.eng.loop_contracts.append(Route())
        def path():
            box.clear()
            env, c = make()
            nx.c = c
            w = World(v, m, env, c, dim, th, mode)
            w.places(which)
            env._distance_to_wall_in_cube = w.wall_distance(env._distance_to_wall_in_cube)
            box['w'] = w
            npm = m._ns['np']
            if 'floor' not in real: real['floor'] = npm.floor
            npm.floor = w.floor(real['floor'])
            try: r = env.is_motion_valid(w.S, w.G)
            finally: box.clear()
            r = decide(T(r))
            st, p, x = w.state
            if mode == 'free':
                v.ensure('a motion that keeps clear of all walls is accepted', r)
            elif r:
                k = v.idx(dim, 'k')
                v.ensure('an accepted motion has not lost the segment', st == 'at')
                v.ensure('an accepted motion ends in the cell of the goal', p is w.q or mkb(intt(p) == intt(w.q)))
                v.ensure('the last piece lies in the cell of the goal', and_(in_cell(c, w.q, x)(k), in_cell(c, w.q, w.G)(k)))
                v.ensure('the last piece keeps the wall thickness from every wall of the cell', and_(clear(c, w.q, x, th)(k), clear(c, w.q, w.G, th)(k)))
        v.explore(path)
    return f

def tasks():
    q = 'envs.GrayCodeWalls.'
    return [('lemma [%s, %s]' % (w, n), lemma(w, d)) for w in ('no step passes the goal', 'steps') for n, d in (('forwards', 1), ('backwards', -1))] + [
        (q + 'is_motion_valid [%s, %s]' % (m, w), motion(m, w)) for m in ('accepted', 'free') for w in ('one cell', 'forwards', 'backwards')] + [
        (q + '_distance_to_wall_in_cube', C07.walls), (q + '__init__ [grid]', C06.corridor('grid'))]
