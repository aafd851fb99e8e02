from prmlib import *
from C18 import build
CASES.clear()
def gen(rng, i):
    d = rng.choice([2, 3])
    kind = rng.choice(['full', 'knn', 'thr'])
    n = rng.choice([6, 8, 12]) if kind != 'thr' else rng.choice([17, 20])
    ops = [n]
    for _ in range(rng.choice([1, 2, 3])):
        k = rng.random()
        if k < .6: n += rng.choice([1, 2, 5]); ops.append(n)
        elif k < .85: ops.append(n - rng.choice([1, 2, 4]))
        else:
            ops.append(0); n = rng.choice([18, 20]); ops.append(n)
    return dict(kind=kind, pts=points(rng, 200 if d > 2 else 120, d), r=rng.choice([2, 3, 5]), mod=rng.choice([0, 3]), ops=ops)
@case(gen)
def growth(kind, pts, r, mod, ops):
    s, c = Sampler(pts), Checker(mod)
    prm = build(kind, pts, 0, r, c, s)
    S = None
    snap = lambda: {k: v for k, v in vars(prm).items() if isinstance(v, (int, float, bool, str, type(None)))}
    for n in ops:
        if n == 0:
            prm.reset(); S = None
            expect(prm.num_vertices() == 0, 'a reset roadmap still has vertices')
            continue
        used = s.i
        if S is not None and n < len(S):
            if kind == 'knn': prm.set_connection_radius(r)
            st, E = snap(), edges(prm.prm_graph)
            try: prm.grow_to_n_samples(n)
            except Exception: pass
            else: fail('growing from %d to %d samples is not refused', len(S), n)
            expect(np.array_equal(prm.prm_samples, S), 'a refused growth changed the samples')
            expect(edges(prm.prm_graph) == E, 'a refused growth changed the edges')
            expect(snap() == st, 'a refused growth changed settings: %s -> %s', st, snap())
            expect(s.i == used, 'a refused growth drew samples')
            continue
        prm.grow_to_n_samples(n)
        old = 0 if S is None else len(S)
        X = np.array(prm.prm_samples)
        expect(X.shape == (n, len(pts[0])), 'grown to %d samples, have %s', n, X.shape)
        if S is not None: expect(np.array_equal(X[:old], S), 'growing changed earlier samples')
        expect(s.i - used == n - old, '%d samples drawn for %d new ones', s.i - used, n - old)
        expect(np.array_equal(X[old:], np.array(s.log[used:used + n - old]).reshape(n - old, -1)), 'new samples are not the drawn ones')
        expect(prm.num_vertices() == n, '%d vertices for %d samples', prm.num_vertices(), n)
        S = X.copy()
if __name__ == '__main__': main()
