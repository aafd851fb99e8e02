"""StraightLine: curve, distance, sampler, volume"""
from vc.spec import *
from contracts.C01 import mk, box

def curve(v):
    m, dim, delta, length = mk(v)
    t = v.real('t')
    def path():
        env = m.StraightLine(dim, delta, length)
        c = env.arclength_to_curve_point(t)
        v.ensure('curve point has one coordinate per dimension', shape_is(c, (dim,)))
        i = v.idx(dim)
        v.ensure('curve point is clamp(t)*length on the first axis', eq(c[i], ite(eq(i, 0), clamp(t, num(0.0), num(1.0)) * length, num(0.0))))
        lo, up = box(dim, delta, length)
        v.ensure('curve stays in the box', and_(c[i] >= lo(i), c[i] <= up(i)))
        v.ensure('starts at the origin', imp(t <= 0, eq(c[i], 0)))
        v.ensure('ends at length', imp(t >= 1, eq(c[i], ite(eq(i, 0), length, num(0.0)))))
    v.explore(path)

def dist(v):
    m, dim, delta, length = mk(v)
    n = v.dim('n')
    p = v.arr('p', (n, dim))
    tau = v.real('tau')
    def path():
        env = m.StraightLine(dim, delta, length)
        D = env.distance_to_path(p)
        v.ensure('one distance per point', shape_is(D, (n,)))
        j = v.idx(n, 'j')
        c = env.arclength_to_curve_point(tau)
        v.ensure('distance is at most the distance to any curve point', D[j] <= norm(dim, lambda k: p[j, k] - c[k]))
        near = env.arclength_to_curve_point(clamp(p[j, 0], num(0.0), length) / length)
        v.ensure('distance is attained on the curve', eq(D[j], norm(dim, lambda k: p[j, k] - near[k])))
    v.explore(path)

def sampler(v):
    m, dim, delta, length = mk(v)
    seed = v.int('seed', 0)
    def path():
        env = m.StraightLine(dim, delta, length, seed)
        v.ensure('generator is seeded as asked', eq(env.rng.seed, seed))
        x = env.sample_from_env()
        v.ensure('sample has one coordinate per dimension', shape_is(x, (dim,)))
        log = env.rng.log
        ok = len(log) == 1 and log[0][0] == 'unit' and len(log[0][1]) == 1
        v.ensure('one vector of independent uniform variates is drawn', ok)
        if not ok: return
        v.ensure('one variate per dimension', shape_is(log[0][2], (dim,)))
        i = v.idx(dim)
        lo, up = box(dim, delta, length)
        u = log[0][2]
        v.ensure('sample is uniform on the box', eq(x[i], lo(i) + u[i] * (up(i) - lo(i))))
        v.ensure('sample lies in the box', and_(x[i] >= lo(i), x[i] <= up(i)))
    v.explore(path)

def volume(v):
    m, dim, delta, length = mk(v)
    def path():
        env = m.StraightLine(dim, delta, length)
        v.ensure('volume is (length + 2 delta)(2 delta)^(d-1)', eq(env.volume, (length + 2 * delta) * power(2 * delta, dim - 1)))
    v.explore(path)

def tasks():
    q = 'envs.StraightLine.'
    return [(q + 'arclength_to_curve_point', curve), (q + 'distance_to_path', dist), (q + 'sample_from_env', sampler), (q + 'volume', volume)]
