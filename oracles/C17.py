from prmlib import *
def gen(rng, i):
    d = rng.choice([2, 2, 3])
    pts = points(rng, 60, d, -4, 4)
    n = rng.choice([17, 18, 20, 24, 30])
    ops = [['grow', n]]
    for _ in range(rng.choice([0, 1, 2, 3])):
        k = rng.random()
        if k < .5: n += rng.choice([1, 2, 3, 6]); ops.append(['grow', n])
        elif k < .9: ops.append(['query', [rng.randint(-4, 4) for _ in range(2 * d)]])
        else: ops.append(['reset', 0]); n = rng.choice([17, 20]); ops.append(['grow', n])
    return dict(pts=pts, r=rng.choice([1, 2, 3, 2.5, 4, 5, 5]), k0=rng.choice([2, 3, 4, 16]), cap=rng.choice([4, 512, 512, 512]), mod=rng.choice([0, 0, 2, 3]), ops=ops)
@case(gen)
def history(pts, r, k0, cap, mod, ops):
    s, c = Sampler(pts), Checker(mod)
    prm = PRM.SimpleRadiusPRM(r, c, s, None, max_k_connection_neighbors=cap)
    prm.k_neighbors = k0
    for op, x in ops:
        if op == 'grow': prm.grow_to_n_samples(x)
        elif op == 'query':
            h = len(x) // 2
            prm.query_best_solution(np.array(x[:h], float), np.array(x[h:], float))
        else:
            prm.reset(); continue
        S, g = prm.prm_samples, prm.prm_graph
        n = len(S)
        expect(sorted(g.adj) == list(range(n)) and prm.num_vertices() == n, 'roadmap of %d samples has vertices %s', n, sorted(g.adj))
        E = edges(g)
        full = prm.k_neighbors < cap
        for a in range(n):
            for b in range(a + 1, n):
                d = dist(S[a], S[b])
                if (a, b) in E:
                    expect(d <= r, 'edge of length %s, radius %s', d, r)
                    expect(c.one(S[a], S[b]), 'edge between %s and %s, motion rejected', S[a], S[b])
                    expect(all(same(w, d) for w in E[a, b]), 'edge of length %s has weights %s', d, E[a, b])
                elif full and d < r and c.one(S[a], S[b]):
                    fail('after %s: samples %s %s at distance %s < radius %s with accepted motion not joined (k=%s, cap %s)', [op, x], S[a], S[b], d, r, prm.k_neighbors, cap)
if __name__ == '__main__': main()
