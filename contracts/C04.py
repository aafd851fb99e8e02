"""NarrowPassage.is_motion_valid"""
from vc.spec import *
from contracts import common

def mk(v):
    common.install_segments()
    v.eng.override['nonasymptotic/util.py'] = {'detect_intersect': common.detect_intersect}
    m = v.eng.load('nonasymptotic/envs.py')
    dim = v.dim('dim', 2)
    c = v.real('clearance', gt=0, lt=0.5)
    return m, dim, c

def free_in_plane(c, x0, xi):
    """what `x is in free space' says about the coordinates 0 and i"""
    room, hall = and_(xi >= -0.5, xi <= 0.5), and_(xi >= -c, xi <= c)
    return [('left room', and_(x0 >= -1.5, x0 <= -0.5, room)), ('right room', and_(x0 >= 0.5, x0 <= 1.5, room)), ('hallway', and_(x0 >= -0.5, x0 <= 0.5, hall))]

def motion(v):
    m, dim, c = mk(v)
    n = v.dim('n')
    s, g = v.arr('start', (n, dim)), v.arr('goal', (n, dim))
    tau = v.real('tau', lo=0, hi=1)
    def path():
        env = m.NarrowPassage(dim, c, 0)
        r = env.is_motion_valid(s, g)
        v.ensure('one verdict per motion', shape_is(r, (n,)))
        j = v.idx(n, 'j')
        i = v.idx(dim)
        v.require(i >= 1)
        at = lambda t, k: s[j, k] + t * (g[j, k] - s[j, k])
        x0, xi = at(tau, 0), at(tau, i)
        # free space in the plane of axes 0 and i (a consequence of free space), so the obligation is stronger than needed
        # parameters at which the motion crosses the lines that carry the walls
        q = lambda k, w: v.quot(w - s[j, k], g[j, k] - s[j, k])
        par = lambda k: (lambda x, t: x_par(x, t, k))
        hints = [(q(0, num(-0.5)), par(1)), (q(0, num(0.5)), par(1)), (q(i, c), par(0)), (q(i, -c), par(0))]
        for a, sa in free_in_plane(c, s[j, 0], s[j, i]):
            for b, gb in free_in_plane(c, g[j, 0], g[j, i]):
                for side, ok, h in (('upper', xi <= c, hints[2]), ('lower', xi >= -c, hints[3])):
                    v.ensure('accepted motion between free points never enters a wall (%s to %s, %s wall)' % (a, b, side),
                             imp(and_(sa, gb, r[j]), or_(x0 <= -0.5, x0 >= 0.5, ok)), extra_lemmas=[common.meets_at(*hints[:2], h)], without=('seg_hit',))
        wall = lambda t, k: and_(t >= 0, t <= 1, at(t, 0) >= -0.5, at(t, 0) <= 0.5, or_(at(t, k) >= c, at(t, k) <= -c))
        v.ensure('rejected motion touches a wall', imp(not_(r[j]), exists(dim, lambda k: and_(k >= 1, exists_real(lambda t: wall(t, k), ['seg_t'])))))
    v.explore(path)

def x_par(x, t, k):
    """parameter on the second segment x[4:8] of the first one's point at t, along axis k"""
    p = x[k] + t * (x[2 + k] - x[k])
    return n_quot(p - x[4 + k], x[6 + k] - x[4 + k])

def tasks():
    return [('envs.NarrowPassage.is_motion_valid', motion)]
