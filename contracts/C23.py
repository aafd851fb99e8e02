"""turtlebot path refinement"""
from vc.spec import *

F = 'exps/tamp_environment/turtlebot_move/streams.py'
def mk(v):
    from vc.engine import Opaque
    for x in ('separating_axis', 'nonasymptotic.envs', 'nonasymptotic.prm', 'nonasymptotic.bound'):
        v.eng.stubs[x] = Opaque(x)
    return v.eng.load(F)

def scaled(N, c, f, d):
    """norm of c*f, c >= 0, with homogeneity of the norm as the lemma used"""
    M = norm(d, lambda k: c * f(k))
    return M, imp(c >= 0, eq(M, c * N))

def flat(s):
    """the parts a list was concatenated from"""
    ps = getattr(s, 'parts', None)
    if ps is None and isinstance(s, JList): return flat(s._frozen()) if s.items is None else [s]
    return [s] if ps is None else [x for p in ps for x in flat(p)]

def positions(s):
    """candidate ghost functions: where waypoint i ended up in the list s (end or start of the i-th loop block)"""
    out, at = [], num(0)
    for p in flat(s):
        o = getattr(p, 'origin', None)
        if o is not None and o[0] == 'varconcat':
            vc, a = o[1], at
            off = lambda i: Num(vc.off(intt(iterm(lift(i).fin))), kind='i')
            out.append(('waypoint i+1 ends the i-th block', vc, lambda i: a + off(i) - 1))
            out.append(('waypoint i starts the i-th block', vc, lambda i: a + off(i)))
        at = at + Num(intt(dterm(p.n)), kind='i')
    return out

def refine(v):
    m = mk(v)
    n, d = v.dim('n', 1), v.dim('d', 1)
    p = v.arr('p', (n, d))
    th = v.real('th', gt=0)
    seen = []
    real_array = m.np.array
    def array(x, *a, **k):
        r = real_array(x, *a, **k)
        if isinstance(x, (JList, list, tuple)) or hasattr(x, 'parts'): seen.append((x, r))
        return r
    def path():
        del seen[:]
        pre = p.snap() if hasattr(p, 'snap') else None
        r = m.interpolate_vectors(p, th)
        src = [x for x, y in seen if y is r]
        v.ensure('a list of points of the same dimension', len(r.shape_) == 2 and eq(inum(dterm(r.shape_[1])), d))
        N = Num(intt(dterm(r.shape_[0])), kind='i')
        k = v.idx(d, 'k')
        cand = positions(src[-1]) if src else []
        if not cand:
            raise Unsupported('no block structure found in the result')
        vc, pos = cand[0][1:]
        j = v.idx(n - 1, 'j')
        a, b = pos(j), pos(j + 1)
        L = b - a
        hs = [hint(n, j), hint(n, j + 1), hint(vc.n, j), hint(vc.n, j + 1), hint(N, b), hint(N, a), hint(N, 0)]
        v.ensure('the first waypoint comes first', eq(r[0, k], p[0, k]), hints=hs)
        v.ensure('waypoints keep their order', and_(a >= 0, L >= 1, b <= N - 1), hints=hs)
        v.ensure('every waypoint is kept', eq(r[b, k], p[j + 1, k]), hints=hs)
        v.ensure('the last waypoint comes last', eq(pos(n - 1), N - 1), hints=hs)
        # rows of the result between two waypoints = the points put down by the j-th loop iteration
        ln = Num(vc.blen(iterm(lift(j).fin)), kind='i')
        e = v.int('e')
        v.require(and_(e >= 0, e < ln))
        pt = lambda e, k: vc.elem(A.nix(iterm(lift(j).fin), vc.n), iterm(lift(e).fin))[k]
        v.ensure('the piece between two waypoints has the length of its block', eq(L, ln), hints=hs)
        v.ensure('the points between two waypoints are those of one iteration, in order', eq(r[a + 1 + e, k], pt(e, k)), hints=hs + [hint(N, a + 1 + e)])
        v.ensure('points between two waypoints are on their segment, in order and evenly spaced', eq((pt(e, k) - p[j, k]) * ln, (e + 1) * (p[j + 1, k] - p[j, k])))
        v.ensure('the number of pieces of a segment covers its length', norm(d, lambda k: p[j + 1, k] - p[j, k]) <= th * ln)
    m.np.array = array
    v.explore(path)

def spacing(v):
    """evenly spaced points of a segment no longer than th * pieces are at most th apart (any norm, any dimension)"""
    d = v.dim('d', 1)
    u, w, L, th = v.arr('step', (d,)), v.arr('seg', (d,)), v.int('pieces', 1), v.real('th', gt=0)
    def path():
        nu = norm(d, lambda k: u[k])
        M, lem = scaled(nu, L, lambda k: u[k], d)
        v.require(forall(d, lambda k: eq(L * u[k], w[k])))
        v.require(norm(d, lambda k: w[k]) <= th * L)
        v.ensure('scaled norm', eq(M, norm(d, lambda k: w[k])))
        v.ensure('consecutive points are at most the threshold apart', nu <= th, extra=[T(lem), T(eq(M, norm(d, lambda k: w[k])))])
    v.explore(path)

def tasks():
    return [('turtlebot_move.streams.interpolate_vectors (spacing lemma)', spacing), ('turtlebot_move.streams.interpolate_vectors', refine)]
