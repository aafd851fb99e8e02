"""StraightLine.is_motion_valid"""
from vc.spec import *

def mk(v):
    m = v.eng.load('nonasymptotic/envs.py')
    dim = v.dim('dim', 2)
    delta, length = v.real('delta', lo=0), v.real('length', gt=0)
    return m, dim, delta, length

def box(dim, delta, length):
    lo = lambda i: -delta
    up = lambda i: ite(eq(i, 0), length + delta, delta)
    return lo, up

def single(v):
    m, dim, delta, length = mk(v)
    s, g = v.arr('start', (dim,)), v.arr('goal', (dim,))
    lo, up = box(dim, delta, length)
    tau = v.real('tau', lo=0, hi=1)
    def path():
        env = m.StraightLine(dim, delta, length)
        r = env.is_motion_valid(s, g)
        i = v.idx(dim)
        x = s[i] + tau * (g[i] - s[i])
        v.ensure('accepted motion: every point of the segment is in the box', imp(r, and_(x >= lo(i), x <= up(i))))
        inside = lambda p: forall(dim, lambda k: and_(p[k] >= lo(k), p[k] <= up(k)))
        v.ensure('motion with both ends in the box is accepted', imp(and_(inside(s), inside(g)), r))
    v.explore(path)

def batch(v):
    m, dim, delta, length = mk(v)
    n = v.dim('n')
    s, g = v.arr('start', (n, dim)), v.arr('goal', (n, dim))
    lo, up = box(dim, delta, length)
    tau = v.real('tau', lo=0, hi=1)
    def path():
        env = m.StraightLine(dim, delta, length)
        r = env.is_motion_valid(s, g)
        v.ensure('one verdict per motion', shape_is(r, (n,)))
        j = v.idx(n, 'j')
        i = v.idx(dim)
        x = s[j, i] + tau * (g[j, i] - s[j, i])
        v.ensure('accepted motion: every point of the segment is in the box', imp(r[j], and_(x >= lo(i), x <= up(i))))
        inside = lambda p: forall(dim, lambda k: and_(p[j, k] >= lo(k), p[j, k] <= up(k)))
        v.ensure('motion with both ends in the box is accepted', imp(and_(inside(s), inside(g)), r[j]))
    v.explore(path)

def tasks():
    return [('envs.StraightLine.is_motion_valid [one motion]', single), ('envs.StraightLine.is_motion_valid [batch]', batch)]
