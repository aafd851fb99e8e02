"""GrayCodeWalls: the corridor of cells and its passage graph"""
from vc.spec import *
from vc.sym import decide, ctx, simpi, intt
from vc import arr as A, prover
from vc.arr import as_seq, PIx, iterm, nix
from contracts.gray import *

def build(v):
    st = GrayStub(v)
    m = load(v, st, NX())
    dim, length = v.dim('dim', 2), v.dim('length', 1)
    th = v.real('thickness', lo=0, lt=0.5)
    return m, st, dim, length, th

def at(L, q, r, dom):
    return as_seq(L.at(A.build_ix(dom, [q, r])))

def corridor(which):
    def f(v):
        m, st, dim, length, th = build(v)
        def path():
            del st.made[:]
            env = m.GrayCodeWalls(dim, length, th, 0)
            v.ensure('one code, on all axes but the first', len(st.made) == 1 and True)
            n, c = st.made[0]
            v.ensure('the code has one place per axis but the first', eq(lift(n), dim - 1))
            N = Num(intt(dterm(c.dim)), kind='i')
            L = as_seq(env.no_walls_linear_list)
            v.ensure('one entry per cell of the grid', eq(Num(intt(dterm(L.n)), kind='i'), length * N))
            q1, r1 = v.idx(length, 'q'), v.idx(c.dim, 'r')
            q2, r2 = v.idx(length, 'q'), v.idx(c.dim, 'r')
            flat = lambda q, r: q * N + r
            cell = lambda q, r: as_seq(L.at(simpi(intt(iterm((q * N + r).fin)))))
            one = lambda q, r: as_seq(L.at(A.build_ix(L.n, [iterm(q.fin), iterm(r.fin)])) if len(comps(L.n)) == 2 else cell(q, r))
            word = lambda q, r: ite(eq(q % 2, 0), r, N - 1 - r)
            a = one(q1, r1)
            if which == 'grid':
                k = v.idx(dim, 'k')
                v.ensure('a cell has one coordinate per axis', eq(Num(intt(dterm(a.n)), kind='i'), dim))
                x = a.at(iterm(k.fin))
                v.ensure('cells lie in the grid', and_(x >= 0, x < ite(eq(k, 0), length, num(2))))
                v.ensure('cells are listed slab by slab along the first axis', eq(a.at(0), q1))
                v.ensure('coordinates are integers', lift(x).kind == 'i')
            if which == 'once':
                b = one(q2, r2)
                v.require(forall(dim, lambda k: eq(a.at(iterm(k.fin)), b.at(iterm(k.fin)))))
                w1, w2 = word(q1, r1).fin, word(q2, r2).fin
                hs = [hint(dim, 0)] + [hint(dim, Num(1 + c.sep(x, y), kind='i')) for x, y in ((w1, w2), (r1.fin, r2.fin), (w1, r2.fin), (r1.fin, w2), ((N - 1 - r1).fin, (N - 1 - r2).fin))]
                v.ensure('no cell appears twice', and_(eq(q1, q2), eq(r1, r2)), hints=hs)
            if which == 'every':
                # an arbitrary cell (q1, bits of word r1); every bit vector is a word of the code
                decide(T(eq(q1 % 2, 0)))
                j = v.idx(dim - 1, 'j')
                best = None
                for w in (r1, N - 1 - r1):
                    b = one(q1, w)
                    g = and_(eq(b.at(0), q1), eq(b.at(simpi(iterm(j.fin) + 1)), c.bit(r1.fin, iterm(j.fin))))
                    if best is None or prover.prove(T(g), ctx().full_pc(), timeout=4000).ok: best = g
                v.ensure('every cell appears', best)
            if which == 'step':
                k = v.idx(dim, 'k')
                if decide(T(r1 + 1 < N)):
                    b = one(q1, r1 + 1)
                    ws = [1 + c.flip(r1.fin), 1 + c.flip((N - 2 - r1).fin)]
                else:
                    v.require(q1 + 1 < length)
                    b = one(q1 + 1, num(0))
                    ws = [z3.IntVal(0)]
                if len(ws) == 2:
                    ev = decide(T(eq(q1 % 2, 0)))
                    ws = ws if ev else ws[::-1]
                w = ws[0]
                d = lambda j: b.at(iterm(j)) - a.at(iterm(j))
                v.ensure('consecutive cells are one step apart in one coordinate', or_(eq(d(w), 1), eq(d(w), -1)))
                v.ensure('the coordinate in which they differ is an axis', and_(Num(w, kind='i') >= 0, Num(w, kind='i') < dim))
                v.ensure('consecutive cells agree in every other coordinate', imp(ne(k, Num(w, kind='i')), eq(d(k.fin), 0)))
            if which == 'graph':
                g = env.no_walls_graph
                v.ensure('the passage graph is a directed graph', isinstance(g, DiGraphRec))
                ns, es = as_seq(g.nodes_.frozen()), as_seq(g.edges_.frozen())
                v.ensure('one node per cell', eq(Num(intt(dterm(ns.n)), kind='i'), length * N))
                v.ensure('one passage per consecutive pair', eq(Num(intt(dterm(es.n)), kind='i'), length * N - 1))
                k = v.idx(dim, 'k').fin
                v.ensure('the nodes are the cells', eq(as_seq(ns.at(A.build_ix(ns.n, [iterm(q1.fin), iterm(r1.fin)]))).at(k), a.at(k)))
                i = v.idx(es.n, 'e').fin
                e = es.at(iterm(i))
                x, y = as_seq(e[0]), as_seq(e[1])
                v.ensure('a passage links consecutive cells', and_(eq(Num(intt(dterm(x.n)), kind='i'), dim), eq(Num(intt(dterm(y.n)), kind='i'), dim),
                    eq(x.at(k), as_seq(L.at(iterm(i))).at(k)), eq(y.at(k), as_seq(L.at(simpi(i + 1))).at(k))))
        v.explore(path)
    return f

def tasks():
    q = 'envs.GrayCodeWalls.__init__ '
    return [(q + '[%s]' % w, corridor(w)) for w in ('grid', 'once', 'every', 'step', 'graph')]
