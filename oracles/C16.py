from prmlib import *
def gen(rng, i):
    d = rng.choice([2, 3])
    pts = points(rng, 40, d)
    K = rng.choice([2, 3, 4, 6])
    n = rng.choice([K + 2, K + 3, K + 5, K + 8])
    ops = [['grow', n]]
    for _ in range(rng.choice([1, 2, 3, 5])):
        k = rng.random()
        if k < .45: ops.append(['k', rng.randint(1, K)])
        elif k < .9: ops.append(['radius', rng.choice([1, 2, 3, 4, 5, 5, 7.3, 30])])
        else:
            ops += [['k', K]]; n += rng.choice([1, 3]); ops.append(['grow', n])
    return dict(pts=pts, K=K, mod=rng.choice([0, 0, 2, 3]), trunc=rng.random() < .5, ops=ops)
@case(gen)
def history(pts, K, mod, trunc, ops):
    s, c = Sampler(pts), Checker(mod)
    prm = PRM.SimpleNearestNeighborRadiusPRM(K, c, s, None, truncate_to_eff_rad=trunc)
    k, r = K, None
    for op, x in ops:
        if op == 'grow':
            r = None
            got = prm.grow_to_n_samples(x)
            T, D = TABLES[-1]
            cert = float(np.min(D[:, -1]))
            expect(same(float(prm.certified_max_conn_r), cert), 'certified radius %s, smallest k-th neighbour distance %s', prm.certified_max_conn_r, cert)
            if trunc: r = cert
        elif op == 'k': prm.set_nearest_neighbors(x); k = x
        else: prm.set_connection_radius(x); r = x
        S, g = prm.prm_samples, prm.prm_graph
        n = len(S)
        expect(sorted(g.adj) == list(range(n)), 'roadmap of %d samples has vertices %s', n, sorted(g.adj))
        E = edges(g)
        for a in range(n):
            for b in range(a + 1, n):
                d = dist(S[a], S[b])
                inn = b in T[a, :k] or a in T[b, :k]
                want = bool(inn and (r is None or d <= r) and c.one(S[a], S[b]))
                expect(((a, b) in E) == want, 'after %s: samples %d %d at distance %s, k=%d, radius %s, neighbours of each other %s, motion %s: edge %s', [op, x], a, b, d, k, r, inn, c.one(S[a], S[b]), (a, b) in E)
                if want: expect(len(E[a, b]) == 1 and same(E[a, b][0], d), 'edge of length %s has weights %s', d, E[a, b])
    try:
        prm.set_nearest_neighbors(K + 1)
    except Exception as e:
        expect(isinstance(e, ArithmeticError), 'asking for too many neighbours raises %r', e)
    else:
        fail('asking for %d neighbours, maximum %d, raises no error', K + 1, K)
if __name__ == '__main__': main()
