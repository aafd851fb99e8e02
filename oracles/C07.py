from graylib import *

class Script:
    """generator with scripted draws; records the weights"""
    def __init__(self, ix, r, u): self.q, self.u, self.ps = [ix, r], u, []
    def choice(self, a, size=None, p=None, **k):
        n = a if isinstance(a, (int, np.integer)) else len(a)
        self.ps.append((n, None if p is None else np.asarray(p, float)))
        i = self.q[len(self.ps) - 1]
        return i if isinstance(a, (int, np.integer)) else a[i]
    def uniform(self, low=0.0, high=1.0, size=None):
        u = np.array(self.u, float)
        if tuple(np.atleast_1d(size)) != u.shape: raise Violation('asked for %s variates' % (size,))
        return np.asarray(low) + u * (np.asarray(high) - np.asarray(low))
    def random(self, size=None): return self.uniform(size=size)

def draw(env, ix, r, u):
    s = Script(ix, r, u)
    env.rng = s
    return np.asarray(env.sample_from_env(), float), s.ps

def gen(rng, i):
    dim = rng.choice([2, 3, 3, 4, 5])
    d = dict(dim=dim, length=rng.choice([1, 2, 3, 4]), th=rng.choice([0.0, .125, .25, .4375]))
    n = d['length'] * 2 ** (dim - 1)
    d['ix'] = rng.choice([0, n - 1, rng.randrange(n), rng.randrange(n)])
    d['r'] = rng.randrange(2 if d['ix'] in (0, n - 1) else 3)
    d['u'] = [rng.randrange(1, 64) / 64 for _ in range(dim)]
    return d
@case(gen)
def region(dim, length, th, ix, r, u):
    env = GrayCodeWalls(dim, length, th, 0)
    L = cells(env)
    boxes = {'core': (np.array(L[ix]) + th, np.array(L[ix]) + 1 - th)}
    for k, s in faces(L, ix):
        lo, hi = np.array(L[ix]) + th, np.array(L[ix]) + 1 - th
        lo[k], hi[k] = (L[ix][k] + 1 - th, L[ix][k] + 1.0) if s > 0 else (float(L[ix][k]), L[ix][k] + th)
        boxes[k, s] = (lo, hi)
    nr = 2 if ix in (0, len(L) - 1) else 3
    def which(r):
        a, ps = draw(env, ix, r, [0.0] * dim)
        b, _ = draw(env, ix, r, [1.0] * dim)
        expect(len(ps) == 2 and ps[0][0] == len(L) and ps[1][0] == nr, 'draws are %s', [p[0] for p in ps])
        hit = [n for n, (lo, hi) in boxes.items() if np.allclose(np.minimum(a, b), lo, atol=1e-9) and np.allclose(np.maximum(a, b), hi, atol=1e-9)]
        expect(hit, 'cell %s, region %d: corners %s, %s are not those of a free region', L[ix], r, a, b)
        return hit[0], ps
    names = [which(q)[0] for q in range(nr)]
    if th > 0: expect(len(set(names)) == nr, 'regions drawn are %s', names)
    name, ps = which(r)
    lo, hi = boxes[name]
    x, _ = draw(env, ix, r, u)
    t = [(x[k] - lo[k]) / (hi[k] - lo[k]) for k in range(dim) if hi[k] > lo[k]]
    t = [min(v, 1 - v) for v in t]; w = [min(v, 1 - v) for v in u]
    for v in t:
        j = [i for i, z in enumerate(w) if abs(z - v) < 1e-9]
        expect(j, 'sample %s is not the affine image of the variates %s in the region %s', x, u, name)
        w.pop(j[0])
    expect(margin(L, ix, x, th) >= -1e-9, 'sample %s of cell %s is closer than %s to a wall', x, L[ix], th)
    vol = lambda b: float(np.prod(b[1] - b[0]))
    vc, vo = (1 - 2 * th) ** dim, th * (1 - 2 * th) ** (dim - 1)
    V = len(L) * vc + 2 * (len(L) - 1) * vo
    got = float(ps[0][1][ix] * ps[1][1][r])
    expect(abs(got - vol((lo, hi)) / V) < 1e-9, 'region %s of cell %s has probability %s, its share of the volume is %s', name, L[ix], got, vol((lo, hi)) / V)
    expect(abs(ps[0][1].sum() - 1) < 1e-9 and abs(ps[1][1].sum() - 1) < 1e-9, 'probabilities do not sum to one')

def gen_w(rng, i):
    dim = rng.choice([2, 3, 4, 5])
    length = rng.choice([1, 2, 3, 4])
    return dict(dim=dim, length=length, th=rng.choice([0.0, .125, .25]), ix=rng.randrange(length * 2 ** (dim - 1)), o=[rng.randrange(1, 128) / 128 for _ in range(dim)])
@case(gen_w)
def wall_distance(dim, length, th, ix, o):
    env = GrayCodeWalls(dim, length, th, 0)
    L = cells(env)
    x = np.array(L[ix]) + np.array(o)
    d, ref = float(env.distance_to_wall(x)), margin(L, ix, x, th)
    expect(abs(d - ref) < 1e-9, 'wall distance of %s is %s, reported %s', x, ref, d)

def gen_s(rng, i): return dict(dim=rng.choice([2, 3, 4]), length=rng.choice([1, 2, 3]), th=rng.choice([0.0, .125, .4]), seed=rng.randrange(10 ** 6))
@case(gen_s, weight=.3)
def free(dim, length, th, seed):
    env = GrayCodeWalls(dim, length, th, seed)
    L = cells(env)
    for _ in range(20):
        x = np.asarray(env.sample_from_env(), float)
        c = tuple(np.floor(x).astype(int))
        expect(c in L and margin(L, L.index(c), x, th) >= -1e-9, 'sample %s is not free', x)
if __name__ == '__main__': main()
