S = []
def seed(**k): S.append(dict(k, stubs=True))
SEEDS = S
P = 'nonasymptotic/prm.py'
seed(id='c15-shrink-in-place', property='C15', needs='setting a smaller radius that equals the distance of two samples',
 what_it_breaks='a smaller radius is applied by removing edges in place, which also removes edges of exactly the radius',
 edits={P: [("""        self.conn_r = new_conn_r # TODO: conn_r is now poorly handled
        # just trigger a rebuild.
        self.grow_to_n_samples(self._samples.shape[0])
""", """        old_conn_r = self.conn_r
        self.conn_r = new_conn_r # TODO: conn_r is now poorly handled
        if new_conn_r < old_conn_r:
            # a smaller radius only loses edges, no need to check all motions again
            for u, v, w in list(self._g_prm.iterEdgesWeights()):
                if not w < new_conn_r:
                    self._g_prm.removeEdge(u, v)
            return
        # just trigger a rebuild.
        self.grow_to_n_samples(self._samples.shape[0])
""")]},
 demo='''from stubs import *
s = Sampler([[0, 0], [0, 0], [0, 1], [0, 3]])
prm = PRM.SimpleFullConnRadiusPRM(3.5, Checker(0), s)
prm.grow_to_n_samples(3)
prm.set_connection_radius(2.0)
assert (1, 2) in edges(prm.prm_graph) and (0, 1) in edges(prm.prm_graph) and (0, 2) not in edges(prm.prm_graph), edges(prm.prm_graph)
''')
seed(id='c16-remembered-k', property='C16', needs='a first growth with fewer samples than neighbours, then a growth to more samples',
 what_it_breaks='the neighbour count that is clipped for a small roadmap is kept for later, larger ones',
 edits={P: [("        effective_k = min(n_samples - 1, self.k_neighbors)\n", "        # a roadmap of n samples has at most n-1 neighbors\n        self.k_neighbors = min(n_samples - 1, self.k_neighbors)\n        effective_k = self.k_neighbors\n")]},
 demo='''from stubs import *
s = Sampler([[0, 0], [0, 0], [0, 1], [0, 2], [0, 3], [0, 4], [0, 5], [0, 6]])
prm = PRM.SimpleNearestNeighborRadiusPRM(5, Checker(0), s, None, truncate_to_eff_rad=False)
prm.grow_to_n_samples(3)
prm.grow_to_n_samples(7)
assert TABLES[-1][0].shape[1] == 5, TABLES[-1][0].shape
''')
seed(id='c16-strict-reload', property='C16', needs='radius lowered, then raised again, with a neighbour count below the built one',
 what_it_breaks='the complete graph is reloaded only when the new radius exceeds the certified one, so edges between the old and the new radius stay missing',
 edits={P: [("        if self.conn_r is not None and new_conn_r > self.conn_r:\n", "        if self.conn_r is not None and new_conn_r > max(self.conn_r, self.certified_max_conn_r):\n")]},
 demo='''from stubs import *
s = Sampler([[0, 0], [0, 0], [0, 1], [0, 3], [0, 6], [0, 10]])
prm = PRM.SimpleNearestNeighborRadiusPRM(4, Checker(0), s, None, truncate_to_eff_rad=False)
prm.grow_to_n_samples(5)
full = set(edges(prm.prm_graph))
prm.set_connection_radius(1.5)
prm.set_connection_radius(prm.certified_max_conn_r)
E = {e for e, w in edges(prm.prm_graph).items()}
S = prm.prm_samples
want = {e for e in full if dist(S[e[0]], S[e[1]]) <= prm.certified_max_conn_r}
assert E == want, (E, want)
''')
seed(id='c17-median', property='C17', needs='samples of uneven density: few of them in a dense cluster with more neighbours in range than the table has',
 what_it_breaks='the doubling stops once the radius is covered for half of the samples',
 edits={P: [("                        or np.all(dists[:, -1] >= self.conn_r)):", "                        or np.sum(dists[:, -1] >= self.conn_r) > n_samples // 2):")]},
 demo='''from stubs import *
pts = [[0., 0.]] + [[i / 64., 0.] for i in range(20)] + [[100. * i, 50.] for i in range(1, 31)]
s = Sampler(pts)
prm = PRM.SimpleRadiusPRM(1.0, Checker(0), s, None)
prm.grow_to_n_samples(50)
E, X = edges(prm.prm_graph), prm.prm_samples
for a in range(50):
    for b in range(a + 1, 50):
        if dist(X[a], X[b]) < 1.0: assert (a, b) in E, (a, b)
''')
seed(id='c17-stale-index', property='C17', needs='growing twice: the first growth extends the index, the second relies on it',
 what_it_breaks='new edges are only made from the last of the new samples on',
 edits={P: [("                                                                               include_starting=past_n_samples,", "                                                                               include_starting=n_samples - min(m_new_samples, self.k_neighbors),")]},
 demo='''from stubs import *
pts = [[0., 0.]] + [[10. * i, 0.] for i in range(20)] + [[10. * i, 1.] for i in range(20)]
s = Sampler(pts)
prm = PRM.SimpleRadiusPRM(1.5, Checker(0), s, None)
prm.k_neighbors = 4
prm.grow_to_n_samples(20)
prm.grow_to_n_samples(26)
E = edges(prm.prm_graph)
for a in range(6): assert (a, 20 + a) in E, (a, sorted(E))
''')
seed(id='c18-early-return', property='C18', needs='a query without solution, followed by another query or a growth',
 what_it_breaks='when there is no path the temporary vertices stay in the roadmap',
 edits={P: [("        sol_path = self.prm_samples[biDij.getPath()]\n", "        if sol_dist > 1e300:  # no solution\n            return sol_dist, self.prm_samples[[]]\n        sol_path = self.prm_samples[biDij.getPath()]\n")]},
 demo='''from stubs import *
s = Sampler([[0, 0], [0, 0], [0, 1], [0, 9]])
prm = PRM.SimpleFullConnRadiusPRM(1.5, Checker(0), s)
prm.grow_to_n_samples(3)
prm.query_best_solution(np.array([0., 0.25]), np.array([0., 8.]))
assert prm.num_vertices() == 3, prm.num_vertices()
''')
seed(id='c18-stale-table', property='C18', needs='experiment mode: a changed radius or neighbour count followed by an all-connections query',
 what_it_breaks='the shortest-path table is not recomputed when the neighbour count is set to the value it had',
 edits={P: [("    def set_nearest_neighbors(self, new_k_nearest_neighbors):\n", "    def set_nearest_neighbors(self, new_k_nearest_neighbors):\n        previous_k = self.k_neighbors\n"),
            ("""        self.k_neighbors = new_k_nearest_neighbors

        if self.in_mp_exp_mode:
""", """        self.k_neighbors = new_k_nearest_neighbors

        # (shortest paths only change when neighbors are added)
        if self.in_mp_exp_mode and new_k_nearest_neighbors > previous_k:
""")]},
 demo='''from stubs import *
pts = [[0, 0], [0, 0], [0, 1], [0, 2], [0, 3]]
s = Sampler(pts)
prm = PRM.SimpleNearestNeighborRadiusPRM(3, Checker(0), s, lambda p: np.zeros(len(p)), truncate_to_eff_rad=False)
prm.in_mp_exp_mode = True
prm.grow_to_n_samples(4)
prm.set_connection_radius(2.5)
prm.set_nearest_neighbors(1)
io, D, ids = prm.query_all_graph_connections(np.array([0., 0.]), np.array([0., 3.]))
for (i, j), d in zip(ids, D):
    ref = dijkstra(prm.prm_graph.adj, int(i))[0].get(int(j), sys.float_info.max)
    assert same(float(d), ref) or (d > 1e300 and ref > 1e300), (i, j, d, ref)
''')
seed(id='c19-newest-first', property='C19', needs='growing a k-nearest-neighbour roadmap twice',
 what_it_breaks='the earlier samples move behind the new ones',
 edits={P: [("""            if n_new_samples <= 0:
                raise ArithmeticError(
                    'PRM is already %i large, cannot grow to %i samples.' % (past_n_samples, n_samples)
                )

            new_samples = np.zeros((n_new_samples, self.d))

            for i in range(n_new_samples):
                new_samples[i, :] = self.sample_state()

            self._samples = np.concatenate([self._samples, new_samples])
""", """            if n_new_samples <= 0:
                raise ArithmeticError(
                    'PRM is already %i large, cannot grow to %i samples.' % (past_n_samples, n_samples)
                )

            new_samples = np.zeros((n_new_samples, self.d))

            for i in range(n_new_samples):
                new_samples[i, :] = self.sample_state()

            self._samples = np.concatenate([new_samples, self._samples])
""")]},
 demo='''from stubs import *
s = Sampler([[0, 0], [0, 0], [0, 1], [0, 2], [0, 3], [0, 4]])
prm = PRM.SimpleNearestNeighborRadiusPRM(2, Checker(0), s, None, truncate_to_eff_rad=False)
prm.grow_to_n_samples(3)
X = prm.prm_samples.copy()
prm.grow_to_n_samples(5)
assert np.array_equal(prm.prm_samples[:3], X), prm.prm_samples
''')
