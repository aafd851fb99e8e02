"""stand-ins for what prm.py builds on (networkit graphs, the neighbour back end, the environment's sampler and motion
checker), as contracts over ghost state; shared by C15 - C19"""
import types, hashlib
import z3
from vc.spec import *
from vc import nps, arr as A, prover, sym
from vc.arr import _n
from vc.engine import journal_class, Opaque
from vc.loops import LoopContract, Summary, is_poison
from vc.sym import REG, STACK, ctx, travel

F = 'nonasymptotic/prm.py'

# ---- functions of whole vectors: `point` (a ghost identity of a vector) and `norm` (Euclidean), kept opaque: equal for
# vectors with equal coordinates (norm: equal up to signs)
_C = z3.Int('vec!c')
class VecOp:
    def __init__(self, kind):
        self.kind, self.skel, self.sk = kind, {}, {}
    def skeleton(self, t):
        memo = {}
        def has(x):
            if x.get_id() not in memo:
                memo[x.get_id()] = x.eq(_C) or any(has(c) for c in x.children())
            return memo[x.get_id()]
        params, seen, subs = [], {}, []
        def walk(x):
            if not has(x):
                if z3.is_int_value(x) or z3.is_rational_value(x) or z3.is_true(x) or z3.is_false(x): return
                if x.get_id() not in seen:
                    ph = z3.Const('vec!p%d%s' % (len(params), x.sort().name()), x.sort())
                    seen[x.get_id()] = ph
                    params.append(x); subs.append((x, ph))
                return
            for c in x.children(): walk(c)
        walk(t)
        return (z3.substitute(t, *subs) if subs else t), params, subs
    def get(self, f, d):
        e = lift(f(simpi(_C)))
        if e.special(): raise Unsupported('a point with nan coordinates')
        t = z3.simplify(e.r())
        sk, params, subs = self.skeleton(t)
        if self.kind == 'norm':
            o = self.skeleton(z3.simplify(-t))
            if o[0].sexpr() < sk.sexpr(): sk, params, subs = o
        key = hashlib.sha256((sk.sexpr() + str(domkey(d))).encode()).hexdigest()[:10]
        name = '%s_%s' % (self.kind, key)
        fun = z3.Function(name, *([p.sort() for p in params] + [z3.RealSort()]))
        if name not in self.skel:
            self.skel[name] = (sk, [s[1] for s in subs], d)
            REG.add_dynamic(name, self)
            if self.kind == 'norm':
                ph = [s[1] for s in subs]
                h = len(ph) // 2
                odd = len(ph) == 2 * h and h > 0 and all(a.sort() == b.sort() for a, b in zip(ph, ph[h:]))
                if odd:
                    s = z3.Solver(); s.set('timeout', 2000)
                    s.add(z3.substitute(sk, *[(a, b) for a, b in zip(ph, ph[h:] + ph[:h])]) + sk != 0)
                    odd = s.check() == z3.unsat
                def lem(app):
                    a = app.children()
                    return [app >= 0] + ([app == fun(*(a[h:] + a[:h]))] if odd else [])
                REG.applemma[name] = lem
        return fun(*params) if params else fun()
    def atomic(self, n):
        """rows of different uninterpreted arrays, or their differences, are not compared"""
        plain = lambda t: t.decl().kind() == z3.Z3_OP_UNINTERPRETED
        def ok(t):
            if z3.is_add(t): return all(ok(x) for x in t.children())
            if z3.is_mul(t): return all(z3.is_rational_value(x) or plain(x) for x in t.children())
            return plain(t)
        return ok(self.skel[n][0])
    def lemmas(self, inst):
        done = inst.done_dyn.setdefault((self.kind, id(self)), set())
        apps = []
        for n in self.skel:
            for a in inst.facts.apps.get(n, {}).values(): apps.append((n, a))
        ab = (lambda t: z3.If(t >= 0, t, -t)) if self.kind == 'norm' else (lambda t: t)
        out = []
        for i in range(len(apps)):
            for j in range(i):
                (n1, a1), (n2, a2) = apps[i], apps[j]
                if n1 == n2 or (self.atomic(n1) and self.atomic(n2)): continue
                k = (a1.get_id(), a2.get_id())
                if k in done: continue
                done.add(k)
                if k not in self.sk: self.sk[k] = (skolem(self.skel[n1][2], 'vc'), a1, a2)
                (s, c) = self.sk[k][0]
                def at(n, a):
                    sk, ph, d = self.skel[n]
                    return z3.substitute(sk, *([(p, x) for p, x in zip(ph, a.children())] + [(_C, intt(iterm(s)))]))
                out.append(z3.Or(a1 == a2, t_bool(t_and(c, ab(at(n1, a1)) != ab(at(n2, a2))))))
        return out

VIS = z3.Function('visible', z3.RealSort(), z3.RealSort(), z3.BoolSort())

class World:
    """one verification run: sampler, motion checker, graph files, neighbour tables"""
    def __init__(self, v, d):
        self.v, self.d = v, d
        self.pids, self.norms = VecOp('point'), VecOp('norm')
        self.J = v.dim('J')
        self.draws = v.arr('draw', (self.J, d))
        self.weight = None          # (u, v) -> specified weight, checked whenever an edge is added
        REG.applemma['visible'] = lambda app: [app == VIS(app.arg(1), app.arg(0))]
        self.start()
    def start(self):
        """fresh ghost state of one path"""
        self.sampler = Sampler(self)
        self.files = Files()
        self.tables = Log()
        self.searches = Log()
        self.paths = Log()
        self.pending = []
        self.eng = self.v.eng
        self.v.eng.carry = [self.sampler]
    def pid(self, f): return self.pids.get(f, self.d)
    def norm(self, f): return Num(self.norms.get(A.in_spec(f), self.d), kind='f', np=True)
    def np_norm(self, real):
        def norm(x, ord=None, axis=None, keepdims=False):
            a = asarr(x)
            ax = None if axis is None else lift(axis).const()
            if ord is not None or keepdims or a.kind == 'b' or not (a.ndim == 2 and ax in (1, -1) or a.ndim == 1) or domkey(a.shape_[-1]) != domkey(self.d):
                return real(x, ord, axis, keepdims) if ord is None else real(x, ord=ord, axis=axis)
            f, sh = a.snap(), a.shape_
            if a.ndim == 1: return self.norm(lambda c: f((A.nix(c, sh[0]),)))
            return Arr((sh[0],), lambda ix: Num(self.norms.get(lambda c: f((ix[0], A.nix(c, sh[1]))), self.d), kind='f', np=True), 'f')
        return norm
    def vis(self, f, g): return B(VIS(self.pid(f), self.pid(g)))
    def row(self, a, i):
        a = asarr(a); s = a.snap(); i = iterm(lift(i).fin) if not isinstance(i, (int, A.PIx)) else i
        return lambda c: s((A.nix(i, a.shape_[0]), A.nix(c, a.shape_[1])))
    def visible(self, S, i, j): return self.vis(self.row(S, i), self.row(S, j))
    def dist(self, S, i, j):
        s = S if callable(S) else (lambda i, k: S[i, k])
        return self.norm(lambda k: s(i, inum(k)) - s(j, inum(k)))
    def arm(self, prm):
        """from here on, every edge added to a roadmap graph must weigh the distance of its end points"""
        self.weight = lambda a, b: self.dist(prm.prm_samples, a, b)
    def settle(self, g, spec, atleast=None):
        """forget the edges of a graph; assume they are as specified (self-loops: anything); with `atleast`: joined
        samples satisfy spec and samples satisfying atleast are joined"""
        E = z3.Function(fresh_name('edge'), z3.IntSort(), z3.IntSort(), z3.BoolSort())
        k = domkey(g.n)
        REG.funcdom[E.name()] = (k, k)
        def lem(app):
            i, j = app.arg(0), app.arg(1)
            N = intt(dterm(g.n))
            rng = z3.And(i >= 0, i < N, j >= 0, j < N)
            u, v = Num(i, kind='i'), Num(j, kind='i')
            if spec is None: return [app == E(j, i)]
            if atleast is None: return [z3.Implies(z3.And(rng, i != j), app == t_bool(T(spec(u, v)))), app == E(j, i)]
            return [z3.Implies(z3.And(rng, i != j), z3.And(z3.Implies(app, t_bool(T(spec(u, v)))), z3.Implies(t_bool(T(atleast(u, v))), app))), app == E(j, i)]
        REG.applemma[E.name()] = lem
        g.A._replace(lambda ix: mkb(E(intt(iterm(ix[0])), intt(iterm(ix[1])))))
    def check_motion(self, a, b):
        a, b = asarr(a), asarr(b)
        ok = a.ndim == 2 and b.ndim == 2
        self.v.ensure('the motion checker is given two lists of points of the same length', ok and and_(mkb(A.dim_eq_term(a.shape_[0], b.shape_[0])), *[mkb(A.dim_eq_term(x.shape_[1], self.d)) for x in (a, b)]))
        if not ok: raise Unsupported('motion checker call')
        fa, fb, sa, sb = a.snap(), b.snap(), a.shape_, b.shape_
        def at(ix):
            i = ix[0]
            return self.vis(lambda c: fa((A.nix(i, sa[0]), A.nix(c, sa[1]))), lambda c: fb((A.nix(i, sb[0]), A.nix(c, sb[1]))))
        return Arr((sa[0],), at, 'b')
    def stubs(self, ann=None):
        w = self
        class G(Graph):
            def __init__(self, n=0, weighted=False, directed=False): Graph.__init__(self, w, n, weighted, directed)
        journal_class(G)
        self.Graph = G
        nk = types.SimpleNamespace()
        nk.Graph = G
        nk.Format = types.SimpleNamespace(NetworkitBinary='nkb')
        nk.writeGraph = lambda g, path, fmt, *a, **k: w.files.put(path, g.copy())
        nk.readGraph = lambda path, fmt, *a, **k: w.files.get(path).copy()
        nk.distance = types.SimpleNamespace(BidirectionalDijkstra=lambda g, s, t, *a: Dijkstra(w, g, s, t), SPSP=lambda g, s, *a: w.spsp(g, s))
        class GT:
            @staticmethod
            def merge(g, h): g.merge(h)
        nk.graphtools = types.SimpleNamespace(GraphTools=GT)
        nk.GraphTools = GT
        os_ = types.SimpleNamespace(path=types.SimpleNamespace(join=lambda *a: '/'.join(a), dirname=lambda p: p, realpath=lambda p: p, abspath=lambda p: p,
                                    exists=lambda p: w.files.has(p)), remove=lambda p: w.files.drop(p))
        st = w.v.eng.stubs
        st['networkit'], st['networkit.graphtools'], st['networkit.distance'] = nk, nk.graphtools, nk.distance
        st['os'] = os_
        st['uuid'] = types.SimpleNamespace(uuid4=lambda: 'uuid')
        st['nonasymptotic.ann'] = types.SimpleNamespace(get_ann=ann or (lambda name='pynndescent': (_ for _ in ()).throw(Unsupported('neighbour back end'))))
        for x in ('matplotlib', 'matplotlib.pyplot', 'matplotlib.animation'): st[x] = Opaque(x)
    def load(self, ann=None, abstract=True):
        """abstract: the content of the sample list is arbitrary (any real coordinates) after it was filled or joined"""
        self.stubs(ann)
        m = self.v.eng.load(F)
        m.np.linalg.norm = self.np_norm(m.np.linalg.norm)
        if abstract:
            self.v.eng.loop_contracts.append(Havoc(self))
            conc = m.np.concatenate
            def concatenate(parts, axis=0, **k):
                r = conc(parts, axis, **k)
                if self.pointlist(r): r._replace(self.fresh(r)._fn)
                return r
            m.np.concatenate = concatenate
        return m
    def pointlist(self, r): return isinstance(r, Arr) and r.ndim == 2 and r.kind == 'f' and r._base is None and domkey(r.shape_[1]) == domkey(self.d)
    def fresh(self, r): return self.v.arr('smp', r.shape_)
    def spsp(self, g, s): return SPSP(self, g, s)

class Havoc(LoopContract):
    """the loop that fills the sample list: its effect on the list is forgotten"""
    def __init__(self, w): self.w = w
    def match_for(self, rt, it, body, get, set_, names, lid):
        if is_poison(it): return None
        sm = Summary(rt, as_seq(it), body, get, set_, names, lid)
        r = sm.run()
        if sm.cdelta:
            for ob in list(sm.mutated.values()):
                if self.w.pointlist(ob): ob._replace(self.w.fresh(ob)._fn)
        return (r,)

def _reg(o):
    if STACK.items and STACK.top.engine is not None: STACK.top.engine.register_obj(o)

class Log:
    """append-only ghost list (not inside symbolic loops)"""
    def __init__(self): self.l = (); _reg(self)
    def add(self, x): self.l = self.l + (x,)
    def __len__(self): return len(self.l)
    def __getitem__(self, i): return self.l[i]
journal_class(Log)

class Files:
    def __init__(self): self.m = (); _reg(self)
    def put(self, p, g): self.m = tuple(x for x in self.m if x[0] != p) + ((p, g),)
    def get(self, p):
        for q, g in self.m:
            if q == p: return g
        raise RuntimeError('no such file')
    def has(self, p): return any(q == p for q, _ in self.m)
    def drop(self, p):
        if not self.has(p): raise FileNotFoundError(p)
        self.m = tuple(x for x in self.m if x[0] != p)
journal_class(Files)

class Sampler:
    """the environment's sampler: the j-th call returns the j-th row of the (arbitrary) sequence of draws"""
    def __init__(self, w):
        self.w = w
        self.cnt = z3.IntVal(0)
        _reg(self)
    def _move(self, new, what):
        cell = [new]
        def swap(self=self, cell=cell): self.cnt, cell[0] = cell[0], self.cnt
        swap()
        if STACK.items: STACK.top.log_undo(swap, self, what)
    def __call__(self):
        j = simpi(self.cnt)
        self._move(self.cnt + 1, ('drawn', z3.IntVal(1)))
        D = self.w.draws
        f = D.snap()
        return Arr((self.w.d,), lambda ix: f((A.nix(j, D.shape_[0]), ix[0])), 'f')
    @property
    def count(self): return Num(intt(self.cnt), kind='i')
    # linear ghost counter (loops.learn_carry)
    def _count(self, evs):
        t = z3.IntVal(0)
        for e in evs:
            if e[0] == 'drawn': t = t + e[1]
        return t
    def _enter(self, j, c): self._move(self.cnt + intt(c) * intt(iterm(j)), ('enter',))
    def _fold(self, sm, n):
        ob = sm.cdelta.get(id(self))
        if ob is None: return
        t = intt(ob[1]) * intt(dterm(n))
        self._move(self.cnt + t, ('drawn', t))
    _noread = False

# ---- graphs
class Removals:
    """ghost: removals of one graph; every edge removed exists and is removed once"""
    def __init__(self, g): self.g = g; _reg(self)
    def log(self, what):
        if STACK.items: STACK.top.log_undo(lambda: None, self, what)
    def _fold(self, sm, n):
        evs = []
        for o in sm.outcomes(sm.k):
            if o.kind == 'next': evs += [(o, e) for e in sm.evs(self, o)]
        loose = [(o, e) for o, e in evs if e[0] == 'rm' and not e[3]]
        if any(e[0] == 'loop' for _, e in evs): raise Unsupported('edges removed unguarded in nested loops')
        if loose:
            w = self.g.w
            k2, c2 = skolem(sm.n, 'it2')
            for o, e in loose:
                for o2 in sm.outcomes(k2):
                    if o2.kind != 'next': continue
                    for e2 in sm.evs(self, o2):
                        if e2[0] != 'rm' or e2[3]: continue
                        same = t_or(t_and(e[1] == e2[1], e[2] == e2[2]), t_and(e[1] == e2[2], e[2] == e2[1]))
                        goal = t_not(t_and(sm.kc, c2, sm.before(sm.k, k2), o.guard, o2.guard, same))
                        w.v.ensure('no edge is removed twice', mkb(goal))
            self.log(('loop',))
    _noread = False

class Adj(Arr):
    """adjacency: every write sets entries to one constant, so the order of the iterations of a loop does not matter"""
    def _fold(self, sm, n):
        def writes(j): return [(o, w) for o in sm.outcomes(j) if o.kind == 'next' for w in sm.evs(self, o)]
        vals = set()
        i = tuple(z3.Int(fresh_name('fx')) for _ in self.shape_)
        for o, w in writes(sm.k):
            if not (isinstance(w, tuple) and w[0] == 'write'): raise Unsupported('effect on a graph in a loop')
            vals.add(as_t(w[2](tuple(A.nix(x, d) for x, d in zip(i, self.shape_)))))
        if not vals: return
        if len(vals) > 1 or not isinstance(list(vals)[0], bool): raise Unsupported('a loop both adds and removes edges')
        val = list(vals)[0]
        def hit(j, ix):
            c = False
            for o, w in writes(j):
                with travel(o.mark): ci = w[1](ix)
                c = t_or(c, t_and(o.guard, ci))
            return c
        kk = [p for p in (sm.k.parts if isinstance(sm.k, A.PIx) else [sm.k]) if not isinstance(p, int)]
        try:
            # the effect of an arbitrary iteration, computed once; other iterations by substitution
            F = t_bool(hit(sm.k, i))
            ids = [z3.Int(fresh_name('fy')) for _ in kk]
            A.clone(F, {x.get_id(): y for x, y in zip(list(i) + kk, list(i) + ids)}, sm.serial)
            def hit2(j, ix):
                jj = [intt(p) for p, q in zip((j.parts if isinstance(j, A.PIx) else [j]), (sm.k.parts if isinstance(sm.k, A.PIx) else [sm.k])) if not isinstance(q, int)]
                return A.clone(F, {x.get_id(): y for x, y in zip(list(i) + kk, [intt(iterm(x)) for x in ix] + jj)}, sm.serial)
        except A.NotClonable as e:
            if prover.TRACE: print("not clonable", e)
            hit2 = hit
        self._write(lambda ix: A.exists_t([n], lambda j: hit2(j, ix)), lambda ix: val)

class Graph:
    """undirected simple graph on vertices 0..n-1 plus vertices added later; A[u,v] = A[v,u]: u and v are joined"""
    def __init__(self, w, n=0, weighted=False, directed=False, A_=None):
        n = lift(n)
        self.w = w
        if n.kind != 'i' or directed is not False: raise Unsupported('graph form')
        w.v.ensure('roadmap graphs are weighted', weighted is True)
        self.n = mkdim(n)
        self.bound = Num(intt(dterm(self.n)), kind='i')
        self.new = ()                  # (id, alive, joined: Arr over 0..n-1) of vertices added later
        self.A = Adj((self.n, self.n), A_ or (lambda ix: False), 'b')
        self.rm = Removals(self)
        self.multi = False
        self._oid = self.A._oid if hasattr(self.A, '_oid') else 0
    iterating = 0
    def copy(self):
        f = self.A.snap()
        if self.new: raise Unsupported('copy of a graph with query vertices')
        g = type(self)(self.n, weighted=True)
        g.A._replace(f)
        return g
    __copy__ = copy
    def __deepcopy__(self, memo): return self.copy()
    # vertices
    def addNodes(self, k):
        k = lift(k).const()
        if k is None or k < 0: raise Unsupported('number of new vertices')
        l = list(self.new)
        for i in range(int(k)):
            l.append((self.bound + i, True, Adj((self.n,), lambda ix: False, 'b')))
        self.new = tuple(l)
        self.bound = self.bound + int(k)
        return self.bound - 1
    def addNode(self): return self.addNodes(1)
    def _new(self, u):
        u = lift(u)
        for j, (i, al, J) in enumerate(self.new):
            if z3.is_true(z3.simplify(intt(u.fin) == intt(i.fin))): return j
        return None
    def numberOfNodes(self): return Num(intt(dterm(self.n)) + sum(1 for x in self.new if x[1]), kind='i')
    def upperNodeIdBound(self): return self.bound
    def removeNode(self, u):
        j = self._new(u)
        if j is None: raise Unsupported('removal of a roadmap vertex')
        i, al, J = self.new[j]
        if not al: raise RuntimeError('no such vertex')
        l = list(self.new); l[j] = (i, False, Adj((self.n,), lambda ix: False, 'b'))
        self.new = tuple(l)
    def hasNode(self, u):
        j = self._new(u)
        if j is not None: return self.new[j][1]
        u = lift(u)
        return and_(u >= 0, u < num(self.n))
    # edges
    def _uv(self, u, v): return [intt(lift(x).fin) for x in (u, v)]
    def _inside(self, x): return z3.And(x >= 0, x < intt(dterm(self.n)))
    def addEdge(self, u, v, w=1.0, addMissing=False, checkMultiEdge=False):
        W = self.w
        ju, jv = self._new(u), self._new(v)
        w = lift(w)
        if addMissing is not False: raise Unsupported('addMissing')
        if ju is not None or jv is not None:
            if ju is not None and jv is not None: raise Unsupported('edge between query vertices')
            j, o = (ju, v) if ju is not None else (jv, u)
            i, al, J = self.new[j]
            if not al: raise RuntimeError('no such vertex')
            o = intt(lift(o).fin)
            W.v.ensure('edges join existing vertices', mkb(self._inside(o)))
            # (which query point this is, is known once the search runs)
            W.pending.append((j, o, w, list(ctx().full_pc())))
            J._write(lambda ix: simp(intt(iterm(ix[0])) == o), lambda ix: True)
            return True
        a, b = self._uv(u, v)
        W.v.ensure('edges join existing vertices', mkb(t_and(self._inside(a), self._inside(b))))
        if W.weight is not None:
            W.v.ensure('an edge weighs the distance of its end points', mkb(t_imp(a != b, t_and(w.isfin(), T(eq(w, W.weight(Num(a, kind='i'), Num(b, kind='i'))))))))
        if checkMultiEdge is not True: self.multi = True
        def hit(ix):
            x, y = intt(iterm(ix[0])), intt(iterm(ix[1]))
            return simp(t_or(t_and(x == a, y == b), t_and(x == b, y == a)))
        self.A._write(hit, lambda ix: True)
        return True
    def hasEdge(self, u, v):
        """edge in the state at the beginning of the enclosing loop: the loop may remove the edge it asked for, and only then"""
        if self._new(u) is not None or self._new(v) is not None: raise Unsupported('hasEdge of a query vertex')
        nr = self.A._noread
        self.A._noread = False
        try: r = self.A.at(lift(u).fin, lift(v).fin)
        finally: self.A._noread = nr
        ctx().asked = getattr(ctx(), 'asked', []) + [(self, *self._uv(u, v), as_t(r))]
        return r
    def removeEdge(self, u, v):
        W = self.w
        a, b = self._uv(u, v)
        if self.iterating: W.v.ensure('the graph does not change while its edges are enumerated', False)
        asked = [q for q in getattr(ctx(), 'asked', []) if q[0] is self]
        guarded = False
        for q in asked:
            if not prover.prove(t_bool(q[3]), ctx().full_pc(), timeout=3000).ok: raise Unsupported('removal after hasEdge answered no')
            if not (z3.is_true(z3.simplify(z3.And(q[1] == a, q[2] == b))) or z3.is_true(z3.simplify(z3.And(q[1] == b, q[2] == a)))): raise Unsupported('removal of another edge than the one asked for')
            guarded = True
        nr = self.A._noread
        self.A._noread = False
        try: here = as_t(self.A.at(simpi(a), simpi(b)))
        finally: self.A._noread = nr
        W.v.ensure('only existing edges are removed', mkb(t_and(self._inside(a), self._inside(b), here)))
        self.rm.log(('rm', a, b, guarded))
        def hit(ix):
            x, y = intt(iterm(ix[0])), intt(iterm(ix[1]))
            return simp(t_or(t_and(x == a, y == b), t_and(x == b, y == a)))
        self.A._write(hit, lambda ix: False)
    def numberOfEdges(self): raise Unsupported('numberOfEdges')
    def indexEdges(self, force=False): pass
    def isWeighted(self): return True
    def _edges(self, withw):
        if any(x[1] for x in self.new): raise Unsupported('edges of a graph with query vertices')
        f = self.A.snap()
        orient = z3.Function(fresh_name('orient'), z3.IntSort(), z3.IntSort(), z3.BoolSort())
        REG.applemma[orient.name()] = lambda app: [z3.Xor(app, orient(app.arg(1), app.arg(0))) if not app.arg(0).eq(app.arg(1)) else app]
        def o(ix):
            x, y = intt(iterm(ix[0])), intt(iterm(ix[1]))
            return t_or(x == y, orient(x, y))
        m = Arr((self.n, self.n), lambda ix: mkb(t_and(as_t(f(ix)), o(ix))), 'b')
        s = A.selection(m)
        def at(k):
            i, j = [Num(intt(iterm(x)), kind='i') for x in s.ix(k)]
            return (i, j, self.w.weight(i, j)) if withw else (i, j)
        r = Seq(s.n, at)
        r._live = self
        return r
    def iterEdgesWeights(self): return self._edges(True)
    def iterEdges(self): return self._edges(False)
    def merge(self, h):
        """networkit: union by identifier; removed identifiers that the other graph has are restored"""
        if any(x[1] for x in self.new) or h.new: raise Unsupported('merge of graphs with query vertices')
        f, g, n0 = self.A.snap(), h.A.snap(), self.n
        def at(ix):
            x, y = intt(iterm(ix[0])), intt(iterm(ix[1]))
            N0 = intt(dterm(n0))
            old = z3.And(x < N0, y < N0)
            return mkb(t_or(t_and(old, as_t(f(ix))), as_t(g(ix))))
        W = self.w
        W.v.ensure('the merged graph has at least the vertices of the roadmap', num(h.n) >= num(n0))
        self.n = h.n
        self.A = Adj((h.n, h.n), at, 'b')
        self.new = ()
        self.bound = mx(self.bound, h.bound)

class SPSP:
    """shortest paths between some vertices, of the graph as it is when the computation runs"""
    def __init__(self, w, g, s):
        self.w, self.g, self.s, self.t, self.rec = w, g, asarr(s), None, None
        _reg(self)
    def setSources(self, s): self.s = asarr(s)
    def setTargets(self, t): self.t = asarr(t)
    def run(self):
        w, g = self.w, self.g
        if any(x[1] for x in g.new): raise Unsupported('shortest paths of a graph with query vertices')
        D = z3.Function(fresh_name('graphdist'), z3.IntSort(), z3.IntSort(), z3.RealSort())
        i = None
        for a in [self.s] + ([self.t] if self.t is not None else []):
            k, c = skolem(a.shape_[0], 'src')
            x = lift(a.snap()((k,)))
            w.v.ensure('shortest paths are asked for existing vertices', imp(mkb(c), mkb(g._inside(intt(x.fin)))))
        self.rec = types.SimpleNamespace(g=g, fn=g.A._fn, A=g.A.snap(), D=D, d=lambda u, v: Num(D(intt(lift(u).fin), intt(lift(v).fin)), kind='f', np=True))
        w.paths.add(self.rec)
        return self
    def getDistances(self, asarray=None):
        if self.rec is None: raise RuntimeError('run() first')
        if asarray is not True: raise Unsupported('form of the distances')
        f, n = self.s.snap(), self.s.shape_[0]
        g, m = (self.t.snap(), self.t.shape_[0]) if self.t is not None else (lambda ix: Num(intt(iterm(ix[0])), kind='i'), self.g.n)
        D = self.rec.d
        return Arr((n, m), lambda ix: D(f((ix[0],)), g((ix[1],))), 'f')
journal_class(SPSP)

class Dijkstra:
    """records the search; distance and path of the graph as it is when the search runs"""
    def __init__(self, w, g, s, t):
        self.w, self.g, self.s, self.t = w, g, s, t
        self.done = False
        _reg(self)
    def run(self):
        w, g = self.w, self.g
        js, jt = g._new(self.s), g._new(self.t)
        L = w.v.int('pathlen', 0)
        P = nps.sym_arr('path', (L,), 'i', lambda ix, t: z3.And(t >= 0, t < intt(dterm(g.n))))
        self.rec = dict(g=g, A=g.A.snap(), new=[(i, al, J.snap()) for i, al, J in g.new], s=js, t=jt, sid=self.s, tid=self.t, dist=w.v.real('soldist', lo=0), path=P)
        w.searches.add(self.rec)
        self.done = True
        return self
    def getDistance(self):
        if not self.done: raise RuntimeError('run() first')
        return self.rec['dist']
    def getPath(self):
        if not self.done: raise RuntimeError('run() first')
        P = self.rec['path']
        return JList(P.tolist())
journal_class(Dijkstra)
