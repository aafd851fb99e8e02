"""GrayCodeWalls: sampler and wall distance, over an arbitrary corridor"""
from vc.spec import *
from vc.sym import decide, ctx, simpi, intt
from vc import arr as A, prover
from vc.arr import as_seq, iterm
from contracts.gray import *

def mk(v):
    dim, length, th = v.dim('dim', 2), v.dim('length', 1), v.real('thickness', lo=0, lt=0.5)
    m, make = maze(v, dim, length, th)
    return m, make, dim, length, th

def open_faces(c, p):
    """-> [(name, axis, sign, term: the face exists)] of the cell at position p"""
    p = intt(p)
    return [('the passage to the predecessor', Num(c.w(p - 1), kind='i'), Num(-c.s(p - 1), kind='i'), mkb(simp(p > 0))),
            ('the passage to the successor', Num(c.w(p), kind='i'), Num(c.s(p), kind='i'), mkb(simp(p + 1 < c.N)))]

def low_wall(c, p, k):
    """the face of cell p towards smaller k-th coordinates is a wall"""
    return and_(*[not_(and_(ex, eq(ax, k), eq(sg, -1))) for _, ax, sg, ex in open_faces(c, p)])
def high_wall(c, p, k):
    return and_(*[not_(and_(ex, eq(ax, k), eq(sg, 1))) for _, ax, sg, ex in open_faces(c, p)])

def volumes(dim, th):
    one = 1 - 2 * th
    return one * power(one, dim - 1), th * power(one, dim - 1)

def case(env, c, which):
    """restricts the first weighted draw to one case; the cases together are all draws"""
    real, first = env.rng.choice, []
    def choice(*a, **k):
        r = real(*a, **k)
        if not first:
            first.append(r)
            if isinstance(r, Num):
                N = Num(c.N, kind='i')
                v = {'first': eq(r, 0), 'last': eq(r + 1, N), 'inner': and_(r > 0, r + 1 < N)}[which]
                ctx().assume(t_bool(T(v)))
        return r
    env.rng.choice = choice

def sampler(which):
    return lambda v: sampler_(v, which)
def sampler_(v, which):
    m, make, dim, length, th = mk(v)
    seen = {}
    def path():
        env, c = make()
        case(env, c, which)
        x = env.sample_from_env()
        log = env.rng.log
        ok = len(log) == 3 and log[0][0] == 'choice' and log[1][0] == 'choice' and log[2][0] == 'unit' and log[0][2] is not None and log[1][2] is not None and len(log[2][1]) == 1
        v.ensure('one weighted draw of a cell, one of a region, then one vector of independent uniform variates', ok)
        if not ok: return
        n, P, p = log[0][1], log[0][2], log[0][3]
        nr, R, r = log[1][1], log[1][2], log[1][3]
        u = log[2][2]
        v.ensure('any cell of the corridor can be drawn', eq(Num(intt(dterm(mkdim(n))), kind='i'), Num(c.N, kind='i')))
        v.ensure('one variate per dimension', shape_is(u, (dim,)))
        v.ensure('sample has one coordinate per dimension', shape_is(x, (dim,)))
        pt = simpi(intt(lift(p).fin))
        end = decide(T(or_(eq(p, 0), eq(p + 1, Num(c.N, kind='i')))))
        k = v.idx(dim, 'k')
        base = c.val(pt, k.fin)
        vc, vo = volumes(dim, th)
        V = Num(c.N, kind='i') * vc + 2 * (Num(c.N, kind='i') - 1) * vo
        rk = next(i for i in range(4) if i == 3 or decide(T(eq(r, i))))
        v.ensure('as many regions as the cell has', eq(lift(nr), 2 if end else 3))
        cand = [('the core', and_(eq(x[k], base + th + u[k] * (1 - 2 * th))), vc, None)]
        for name, ax, sg, ex in open_faces(c, pt):
            if not decide(T(ex)): continue
            uk = ite(eq(k, ax), u[0], ite(eq(k, 0), u[ax], u[k]))
            g = []
            for w in (uk, u[k]):
                lo = base + ite(eq(k, ax), ite(eq(sg, 1), 1 - th, num(0.0)), th)
                g.append(eq(x[k], lo + w * ite(eq(k, ax), th, 1 - 2 * th)))
            cand.append((name, g[0], vo, (ax, sg)))
            cand.append((name, g[1], vo, (ax, sg)))
        best = cand[0]
        for cd in cand:
            if prover.prove(T(cd[1]), ctx().full_pc(), timeout=5000).ok:
                best = cd
                break
        name, g, vol, face = best
        v.ensure('the sample is uniform on a region of free space: the core of the cell or one of its passages, on the right face', g)
        u_k = [u[k], u[0]] + ([u[face[0]]] if face else [])
        v.ensure('the sample lies in its cell', and_(x[k] >= base, x[k] <= base + 1))
        v.ensure('the sample keeps the wall thickness from every wall of its cell', and_(imp(low_wall(c, pt, k), x[k] >= base + th), imp(high_wall(c, pt, k), x[k] <= base + 1 - th)))
        v.ensure('cell and region are drawn with probability equal to the share of the volume of the region', eq(P[p] * R[rk] * V, vol))
        seen.setdefault(end, {}).setdefault(rk, set()).add(name)
    v.explore(path)
    e = seen.get(which != 'inner', {})
    want = 3 if which == 'inner' else 2
    if not (len(e) == want and all(len(s) == 1 for s in e.values()) and len({next(iter(s)) for s in e.values()}) == want):
        v.fail('each region of the cell is drawn by one value', str(sorted(e.items())))

def weights(v):
    m, make, dim, length, th = mk(v)
    def path():
        env, c = make()
        vc, vo = volumes(dim, th)
        V = Num(c.N, kind='i') * vc + 2 * (Num(c.N, kind='i') - 1) * vo
        p = v.int('p', 0)
        v.require(p < Num(c.N, kind='i'))
        P = env.cuboid_pmf_vect
        v.ensure('a weight per cell', shape_is(P, (env.n_nodes,)))
        end = or_(eq(p, 0), eq(p + 1, Num(c.N, kind='i')))
        v.ensure('weight of a cell is its share of the free volume', eq(P[p] * V, ite(end, vc + vo, vc + 2 * vo)))
        v.ensure('weights of the cells sum to one', eq(2 * (vc + vo) + (Num(c.N, kind='i') - 2) * (vc + 2 * vo), V))
        v.ensure('region weights of an end cell sum to one', eq(env.end_passage_regions_pmf_vect[0] + env.end_passage_regions_pmf_vect[1], 1))
        M = env.mid_passage_regions_pmf_vect
        v.ensure('region weights of an inner cell sum to one', eq(M[0] + M[1] + M[2], 1))
    v.explore(path)

def walls(v):
    m, make, dim, length, th = mk(v)
    x = v.arr('x', (dim,))
    def path():
        env, c = make()
        p = v.int('p', 0)
        v.require(p < Num(c.N, kind='i'))
        pt = simpi(intt(lift(p).fin))
        c.note(pt)
        cube = Arr((dim,), lambda ix: c.val(pt, ix[0]), 'i')
        D = env._distance_to_wall_in_cube(cube, x)
        k = v.idx(dim, 'k')
        base = lambda j: c.val(pt, j.fin)
        v.ensure('wall distance is at most the distance to each wall of the cell less the thickness',
                 and_(imp(low_wall(c, pt, k), D <= x[k] - base(k) - th), imp(high_wall(c, pt, k), D <= base(k) + 1 - x[k] - th)))
        at = exists(dim, lambda j: or_(and_(low_wall(c, pt, j), eq(D, x[j] - base(j) - th)), and_(high_wall(c, pt, j), eq(D, base(j) + 1 - x[j] - th))))
        v.ensure('wall distance is attained at a wall of the cell', at, hints=[hint(dim, 0), hint(dim, 1)])
    v.explore(path)

def tasks():
    q = 'envs.GrayCodeWalls.'
    return [(q + 'sample_from_env [%s cell]' % w, sampler(w)) for w in ('first', 'inner', 'last')] + [(q + '__init__ [weights]', weights), (q + '_distance_to_wall_in_cube', walls)]
