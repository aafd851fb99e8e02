"""NarrowPassage: sampler, volume, curve, distance"""
from vc.spec import *
from vc import prover
from vc.sym import decide, ctx

def mk(v):
    m = v.eng.load('nonasymptotic/envs.py')
    return m, v.dim('dim', 2), v.real('clearance', gt=0, lt=0.5)

def regions(dim, c):
    """name -> (lower, upper, volume)"""
    ax = lambda a, b: (lambda i: ite(eq(i, 0), num(a), num(b)))
    return {'left room': (ax(-1.5, -0.5), ax(-0.5, 0.5), num(1.0)), 'right room': (ax(0.5, -0.5), ax(1.5, 0.5), num(1.0)),
            'hallway': (ax(-0.5, -c), ax(0.5, c), power(2 * c, dim - 1))}

def sampler(v):
    m, dim, c = mk(v)
    seed = v.int('seed', 0)
    seen = {}
    def path():
        env = m.NarrowPassage(dim, c, seed)
        v.ensure('generator is seeded as asked', eq(env.rng.seed, seed))
        x = env.sample_from_env()
        v.ensure('sample has one coordinate per dimension', shape_is(x, (dim,)))
        log = env.rng.log
        ok = len(log) == 2 and log[0][0] == 'choice' and log[0][2] is not None and log[1][0] == 'unit' and len(log[1][1]) == 1
        v.ensure('one weighted draw of a region, then one vector of independent uniform variates', ok)
        if not ok: return
        n, p, k, u = log[0][1], log[0][2], log[0][3], log[1][2]
        v.ensure('three regions', eq(lift_dim(n), 3))
        v.ensure('one variate per dimension', shape_is(u, (dim,)))
        kk = 0 if decide(T(eq(k, 0))) else 1 if decide(T(eq(k, 1))) else 2
        i = v.idx(dim)
        vol = 2 + power(2 * c, dim - 1)
        best = None
        for name, (lo, up, rv) in regions(dim, c).items():
            g = eq(x[i], lo(i) + u[i] * (up(i) - lo(i)))
            best = best or (name, g, rv, lo, up)
            if prover.prove(T(g), ctx().full_pc(), timeout=5000).ok:
                best = (name, g, rv, lo, up)
                break
        name, g, rv, lo, up = best
        v.ensure('sample is uniform on a region of free space', g)
        v.ensure('sample lies in the region', and_(x[i] >= lo(i), x[i] <= up(i)))
        v.ensure('the region is drawn with probability equal to its share of the volume', eq(p[kk] * vol, rv))
        seen[kk] = name
    v.explore(path)
    if sorted(seen.values()) != ['hallway', 'left room', 'right room']:
        v.fail('each region is drawn', str(seen))

def lift_dim(n):
    return num(n) if not isinstance(n, int) else num(n)

def volume(v):
    m, dim, c = mk(v)
    def path():
        env = m.NarrowPassage(dim, c, 0)
        v.ensure('volume is 2 + (2 clearance)^(d-1)', eq(env.volume, 2 + power(2 * c, dim - 1)))
    v.explore(path)

def curve(v):
    m, dim, c = mk(v)
    t = v.real('t')
    def path():
        env = m.NarrowPassage(dim, c, 0)
        p = env.arclength_to_curve_point(t)
        v.ensure('curve point has one coordinate per dimension', shape_is(p, (dim,)))
        i = v.idx(dim)
        v.ensure('curve runs along the first axis at unit speed from the left to the right opening', eq(p[i], ite(eq(i, 0), clamp(t, num(0.0), num(1.0)) - 0.5, num(0.0))))
        v.ensure('curve stays in the hallway', and_(p[i] >= ite(eq(i, 0), num(-0.5), -c), p[i] <= ite(eq(i, 0), num(0.5), c)))
    v.explore(path)

def dist(v):
    m, dim, c = mk(v)
    n = v.dim('n')
    p = v.arr('p', (n, dim))
    tau = v.real('tau')
    def path():
        env = m.NarrowPassage(dim, c, 0)
        D = env.distance_to_path(p)
        v.ensure('one distance per point', shape_is(D, (n,)))
        j = v.idx(n, 'j')
        q = env.arclength_to_curve_point(tau)
        v.ensure('distance is at most the distance to any curve point', D[j] <= norm(dim, lambda k: p[j, k] - q[k]))
        near = env.arclength_to_curve_point(clamp(p[j, 0], num(-0.5), num(0.5)) + 0.5)
        v.ensure('distance is attained on the curve', eq(D[j], norm(dim, lambda k: p[j, k] - near[k])))
    v.explore(path)

def tasks():
    q = 'envs.NarrowPassage.'
    return [(q + 'sample_from_env', sampler), (q + 'volume', volume), (q + 'arclength_to_curve_point', curve), (q + 'distance_to_path', dist)]
