from graylib import *

def gen(rng, i):
    dim, length = rng.choice([2, 2, 3, 3, 4, 5]), rng.choice([1, 2, 3, 4])
    n = length * 2 ** (dim - 1)
    q = rng.choice([rng.randrange(0, 4 * (n - 1) + 1) / 4 / (n - 1), rng.randrange(0, 2 * (n - 1) + 1) / 2 / (n - 1), rng.random(), 0.0, 1.0, -.5, 1.5, 1e-9, 1 - 1e-9])
    return dict(dim=dim, length=length, th=rng.choice([0.0, .125, .375]), t=q)
@case(gen)
def curve(dim, length, th, t):
    env = GrayCodeWalls(dim, length, th, 0)
    L = cells(env)
    T = min(max(t, 0.0), 1.0) * (len(L) - 1)
    i = min(int(T), len(L) - 2)
    ref = np.array(L[i]) + .5 + (T - i) * (np.array(L[i + 1]) - np.array(L[i]))
    x = np.asarray(env.arclength_to_curve_point(t), float)
    expect(x.shape == (dim,) and np.allclose(x, ref, rtol=0, atol=1e-7), 'curve(%r) = %s, expected %s', t, x, ref)
    p = i if T - i <= .5 else i + 1
    expect(margin(L, p, x, th) >= .5 - th - 1e-6, 'curve point %s is closer than 1/2 - thickness to a wall', x)
    expect(abs(env.get_curve_arclength() - (len(L) - 1)) < 1e-9, 'arclength %s', env.get_curve_arclength())
    expect(np.allclose(env.start_point(), np.array(L[0]) + .5) and np.allclose(env.end_point(), np.array(L[-1]) + .5), 'start or end point is not a centre')
if __name__ == '__main__': main()
