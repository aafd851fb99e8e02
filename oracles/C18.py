from prmlib import *
def gen(rng, i):
    d = rng.choice([2, 3])
    kind = rng.choice(['full', 'knn', 'thr'])
    n = rng.choice([3, 5, 8, 12]) if kind != 'thr' else rng.choice([17, 20])
    pts = points(rng, 30, d, -3, 3)
    qs = []
    for _ in range(rng.choice([1, 2])):
        if rng.random() < .3: qs.append([list(map(float, pts[rng.randrange(n)])), [rng.randint(-12, 12) / 2 for _ in range(d)]])
        else: qs.append([[rng.randint(-8, 8) / 2 for _ in range(d)] for _ in range(2)])
    return dict(kind=kind, pts=pts, n=n, r=rng.choice([1, 2, 2.5, 3, 5]), mod=rng.choice([0, 0, 2, 3]), qs=qs, allc=rng.random() < .5)
def build(kind, pts, n, r, c, s):
    if kind == 'full': prm = PRM.SimpleFullConnRadiusPRM(r, c, s)
    elif kind == 'knn': prm = PRM.SimpleNearestNeighborRadiusPRM(4, c, s, lambda p: np.zeros(len(p)), truncate_to_eff_rad=False)
    else: prm = PRM.SimpleRadiusPRM(r, c, s, lambda p: np.zeros(len(p)))
    return prm
@case(gen)
def query(kind, pts, n, r, mod, qs, allc):
    s, c = Sampler(pts), Checker(mod)
    prm = build(kind, pts, n, r, c, s)
    if kind != 'full' and allc: prm.in_mp_exp_mode = True
    prm.grow_to_n_samples(n)
    if kind == 'knn': prm.set_connection_radius(r)
    S = np.array(prm.prm_samples)
    for a, b in qs:
        a, b = np.array(a), np.array(b)
        before = (sorted(prm.prm_graph.adj), edges(prm.prm_graph))
        loops0 = {u: len(x.get(u, [])) for u, x in prm.prm_graph.adj.items()}
        want = [{i: dist(q, S[i]) for i in range(n) if dist(q, S[i]) <= r and c.one(q, S[i])} for q in (a, b)]
        if allc and kind != 'full':
            if not want[0] or not want[1]: continue
            io, D, ids = prm.query_all_graph_connections(a, b)
            got = [tuple(int(x) for x in p) for p in ids]
            expect(sorted(got) == sorted((i, j) for i in want[0] for j in want[1]), 'pairs %s, expected all of %s x %s', got, sorted(want[0]), sorted(want[1]))
            expect(np.asarray(io).shape == (len(got), 2, len(a)), 'coordinates of pairs have shape %s', np.asarray(io).shape)
            for (i, j), xy, dd in zip(got, io, D):
                expect(np.array_equal(xy[0], S[i]) and np.array_equal(xy[1], S[j]), 'pair %s has coordinates %s', (i, j), xy)
                ref = dijkstra(prm.prm_graph.adj, i)[0].get(j, sys.float_info.max)
                expect(same(float(dd), ref), 'pair %s has roadmap distance %s, reported %s', (i, j), ref, dd)
        else:
            del DIJKSTRA[:]
            dd, path = prm.query_best_solution(a, b)
            expect(len(DIJKSTRA) == 1, 'shortest path computed %d times', len(DIJKSTRA))
            g, s_, t_ = DIJKSTRA[0]
            expect(s_ not in range(n) and t_ not in range(n) and s_ != t_, 'shortest path between vertices %s %s', s_, t_)
            for v, w in ((s_, want[0]), (t_, want[1])):
                got = {int(u): x for u, x in g.adj[v].items()}
                expect(set(got) == set(w), 'query point joined to samples %s, expected %s', sorted(got), sorted(w))
                expect(all(same(x[0], w[u]) for u, x in got.items()), 'query edge weights %s, expected %s', got, w)
            rest = {e: x for e, x in edges(g).items() if s_ not in e and t_ not in e}
            expect(rest == before[1], 'edges of the roadmap changed during the query')
            ref = dijkstra(g.adj, s_)[0].get(t_, sys.float_info.max)
            expect(same(float(dd), ref) or (ref > 1e300 and dd > 1e300), 'path length %s, shortest path in the roadmap %s', dd, ref)
            path = np.asarray(path)
            if ref < 1e300:
                pp = [a] + list(path) + [b]
                expect(same(sum(dist(x, y) for x, y in zip(pp, pp[1:])), ref), 'returned samples %s do not make a path of length %s', path.tolist(), ref)
                expect(all(any(np.array_equal(x, y) for y in S) for x in path), 'path contains points that are not samples')
            else: expect(len(path) == 0, 'no path exists but samples %s are returned', path)
        after = (sorted(prm.prm_graph.adj), edges(prm.prm_graph))
        expect(after == before, 'the query changed the roadmap: vertices %s -> %s, edges differ: %s', before[0], after[0], before[1] != after[1])
        expect(np.array_equal(prm.prm_samples, S), 'the query changed the samples')
if __name__ == '__main__': main()
