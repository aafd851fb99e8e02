from prmlib import *
def gen(rng, i):
    d = rng.choice([1, 2, 3])
    pts = points(rng, 40, d) if d > 1 else points(rng, 40, 1, -40, 40)
    ops, n = [], 0
    for _ in range(rng.choice([1, 2, 3, 4])):
        k = rng.random()
        if n == 0 or k < .45:
            n = n + rng.choice([0, 1, 1, 2, 4, 7]) if n else rng.choice([1, 2, 3, 6, 9]); ops.append(['grow', n])
        elif k < .85: ops.append(['radius', rng.choice([0.5, 1, 1, 2, 3, 5, 5, 4.1, 7.3, 20])])
        else: ops.append(['reset', 0]); n = 0
    return dict(dim=d, pts=pts, r=rng.choice([1, 2, 3, 5, 5, 4.1, 20]), mod=rng.choice([0, 0, 2, 3]), ops=ops)
def check(prm, pts, r, chk, got):
    g, S = prm.prm_graph, prm.prm_samples
    n = len(S)
    expect(sorted(g.adj) == list(range(n)), 'roadmap of %d samples has vertices %s', n, sorted(g.adj))
    E = edges(g)
    ret = []
    for i in range(n):
        for j in range(i + 1, n):
            d = dist(S[i], S[j])
            want = d <= r and chk.one(S[i], S[j])
            expect(((i, j) in E) == want, 'samples %s %s at distance %s, radius %s, motion %s: edge %s', S[i], S[j], d, r, chk.one(S[i], S[j]), (i, j) in E)
            if want:
                expect(len(E[i, j]) == 1 and same(E[i, j][0], d), 'edge of length %s has weights %s', d, E[i, j])
    if got is not None:
        ref = [dist(S[i], S[j]) for i in range(n) for j in range(n) if dist(S[i], S[j]) <= r and chk.one(S[i], S[j])]
        up = [x for x in set(round(x, 9) for x in ref)]
        gs = set(round(float(x), 9) for x in np.asarray(got).flatten())
        expect(gs == set(up) or gs | {0.0} == set(up) | {0.0}, 'returned distances %s, accepted in-range pairs have %s', sorted(gs), sorted(up))
@case(gen)
def history(dim, pts, r, mod, ops):
    s, c = Sampler(pts), Checker(mod)
    prm = PRM.SimpleFullConnRadiusPRM(r, c, s)
    alive = False
    for op, x in ops:
        got = None
        if op == 'grow': got = prm.grow_to_n_samples(x); alive = True
        elif op == 'radius': prm.set_connection_radius(x); r = x
        else: prm.reset(); alive = False
        if alive:
            check(prm, pts, r, c, got)
        else:
            expect(prm.num_vertices() == 0 and prm.num_edges() == 0, 'a reset roadmap still has vertices')
if __name__ == '__main__': main()
