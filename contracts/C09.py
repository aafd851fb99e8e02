"""GrayCodeWalls: solution curve, over an arbitrary corridor"""
from vc.spec import *
from vc.sym import decide, ctx, simpi, intt
from vc.arr import as_seq, iterm
from contracts.gray import *
from contracts.C07 import low_wall, high_wall
from contracts import C06

def mk(v):
    dim, length, th = v.dim('dim', 2), v.dim('length', 1), v.real('thickness', lo=0, lt=0.5)
    m, make = maze(v, dim, length, th, first=True)
    return m, make, dim, length, th

def curve(which):
    def f(v):
        m, make, dim, length, th = mk(v)
        t = v.real('t')
        def path():
            env, c = make()
            N = Num(c.N, kind='i')
            i = v.int('i', 0)
            v.require(i + 1 < N)
            T_ = clamp(t, num(0.0), num(1.0)) * (N - 1)
            s = T_ - i
            v.require(and_(s >= 0, s <= 1))
            {'before': lambda: v.require(and_(s > 0, 2 * s <= 1)), 'after': lambda: v.require(and_(2 * s > 1, s < 1)), 'start': lambda: v.require(eq(s, 0)), 'end': lambda: v.require(eq(s, 1))}[which]()
            pt = simpi(intt(i.fin))
            c.note(pt); c.note(simpi(intt(pt) + 1))
            x = env.arclength_to_curve_point(t)
            v.ensure('curve point has one coordinate per dimension', shape_is(x, (dim,)))
            k = v.idx(dim, 'k')
            a, b = c.val(pt, k.fin), c.val(simpi(intt(pt) + 1), k.fin)
            v.ensure('the curve runs at unit speed along the segments between the centres of consecutive cells', eq(x[k], a + 0.5 + s * (b - a)))
            q = pt if which in ('before', 'start') else simpi(intt(pt) + 1)
            o = c.val(q, k.fin)
            v.ensure('the curve keeps half a cell from every wall', and_(imp(low_wall(c, q, k), x[k] - o >= 0.5), imp(high_wall(c, q, k), o + 1 - x[k] >= 0.5)))
            v.ensure('the curve stays in its cell', and_(x[k] >= o, x[k] <= o + 1))
        v.explore(path)
    return f

def ends(v):
    m, make, dim, length, th = mk(v)
    def path():
        env, c = make()
        k = v.idx(dim, 'k')
        v.ensure('start point is the centre of the first cell', eq(env.start_point()[k], c.val(0, k.fin) + 0.5))
        v.ensure('end point is the centre of the last cell', eq(env.end_point()[k], c.val(simpi(c.N - 1), k.fin) + 0.5))
        v.ensure('arclength is one unit per passage', eq(env.get_curve_arclength(), Num(c.N, kind='i') - 1))
    v.explore(path)

def first(v):
    m, st, dim, length, th = C06.build(v)
    def path():
        del st.made[:]
        env = m.GrayCodeWalls(dim, length, th, 0)
        L = as_seq(env.no_walls_linear_list)
        a, b = as_seq(L[0]), as_seq(L[1])
        k = v.idx(dim, 'k')
        v.ensure('the first cell is at the origin', eq(a.at(iterm(k.fin)), 0))
        v.ensure('the second cell is one step up the last axis', eq(b.at(iterm(k.fin)) - a.at(iterm(k.fin)), ite(eq(k, dim - 1), num(1), num(0))))
    v.explore(path)

def tasks():
    q = 'envs.GrayCodeWalls.'
    return [(q + 'arclength_to_curve_point [%s]' % w, curve(w)) for w in ('start', 'before', 'after', 'end')] + [(q + 'start_point/end_point/get_curve_arclength', ends), (q + '__init__ [first step]', first)]
