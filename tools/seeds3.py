S = []
def seed(**k): S.append(k)
SEEDS = S
E, N, P, K, L, A = 'nonasymptotic/envs.py', 'exps/run_narrow_passage_clearance_trial.py', 'nonasymptotic/sampler.py', 'exps/run_knn_radius_trial.py', 'exps/run_straight_line_optimality_trial.py', 'nonasymptotic/ann.py'
seed(id='c07-equal-cells', property='C07', needs='thickness > 0, so that the two end cells have less free space than the others',
 what_it_breaks='all cells are equally likely although the end cells have one opening less',
 edits={E: [("        total_volume = (self.n_nodes - 2) * vol_mid_passage + 2 * vol_end_passage\n", "        total_volume = self.n_nodes * vol_mid_passage\n"),
            ("        prob_end_passage = vol_end_passage / total_volume  #", "        prob_end_passage = vol_mid_passage / total_volume  #")]},
 demo='''import numpy as np
from nonasymptotic.envs import GrayCodeWalls
env = GrayCodeWalls(2, 2, 0.25, seed=3)
# cells (0,0) (0,1) (1,1) (1,0)
pts = np.array([env.sample_from_env() for _ in range(8000)])
n = np.sum(pts[:, 1] < 1) / len(pts)
want = 2 * .375 / 1.75
assert abs(n - want) < .03, (n, want)
''')
seed(id='c09-rounded-leg', property='C09', needs='a curve parameter just behind the middle of a face or the centre of a cell at a corner of the corridor',
 what_it_breaks='the leg number is rounded to two digits, so points just behind a corner are put on the prolonged previous leg',
 edits={E: [("np.ceil(t / 0.5)", "np.ceil(np.round(t / 0.5, 2))")]},
 demo='''import numpy as np
from nonasymptotic.envs import GrayCodeWalls
env = GrayCodeWalls(2, 2, 0.0)
L = env.get_curve_arclength()
# corridor (0,0) (0,1) (1,1) (1,0): the corner at the centre of (0,1) is at arclength 1
p = np.asarray(env.arclength_to_curve_point((1 + 1 / 512) / L))
assert np.allclose(p, [0.5 + 1 / 512, 1.5], atol=1e-6), p
''')
PYN = '''import os, sys, types, tempfile
import numpy as np
sys.modules['pynndescent'] = types.ModuleType('pynndescent')
kgraph = types.ModuleType('kgraph')
class KGraph:
    def __init__(self, data, metric): self.data = np.array(data)
    def build(self, K=0, **k):
        self.rows = []
        for x in self.data:
            d = ((self.data - x) ** 2).sum(axis=1)
            self.rows.append([(j, d[j] / 2) for j in np.argsort(d, kind='stable')[:K]])
    def save_text(self, path):
        with open(path, 'w') as f:
            f.write('%d\\n' % len(self.rows))
            for r in self.rows: f.write(' '.join([str(len(r))] + ['%d %r' % (j, float(d)) for j, d in r]) + '\\n')
kgraph.KGraph = KGraph
sys.modules['kgraph'] = kgraph
from nonasymptotic import ann
'''
seed(id='c20-fresh-rows', property='C20', needs='an update with fewer new points than neighbours per row',
 what_it_breaks='after an update the table has no more columns than there are new points',
 edits={A: [("        return self.new_graph_from_data(new_data, self.k_neighbors)\n", "        # there cannot be more neighbors than rows\n        return self.new_graph_from_data(new_data, min(self.k_neighbors, fresh_r))\n")]},
 demo=PYN + '''with tempfile.TemporaryDirectory() as d:
    a = ann.KGraphANN()
    a.save_txt_path = os.path.join(d, 'g.txt')
    a.new_graph_from_data(np.arange(12.).reshape(6, 2), 4)
    e, dist = a.update_graph_with_data(np.array([[1., 1.], [5., 5.]]))
assert e.shape == dist.shape == (8, 4), (e.shape, dist.shape)
''')
seed(id='c10-scaled-fold', property='C10', needs='a draw whose coordinates add up to more than one',
 what_it_breaks='a draw beyond the diagonal is scaled onto the diagonal instead of mirrored, so half of the points lie on one edge of their triangle',
 edits={P: [("        p = Point(1 - x, 1 - y)\n", "        p = Point(x / (x + y), y / (x + y))\n")]},
 demo='''import numpy as np
from shapely import Polygon, LineString
from nonasymptotic.sampler import random_point_in_mpolygon as draw
rng = np.random.default_rng(1)
tri = [(0, 0), (4, 0), (1, 3)]
g = Polygon(tri)
edge = sum(g.exterior.distance(draw(g, rng)) < 1e-9 for _ in range(100))
assert edge < 10, edge
''')
seed(id='c10-first-holes', property='C10', needs='a multipolygon whose first part has fewer holes than another one',
 what_it_breaks='only as many holes per part are handed over as the first part has',
 edits={P: [("        max_num_holes = np.max(num_mpoly_holes)\n", "        max_num_holes = num_mpoly_holes[0]\n")]},
 demo='''import numpy as np
from shapely import Polygon, MultiPolygon
from nonasymptotic.sampler import random_point_in_mpolygon as draw
rng = np.random.default_rng(1)
g = MultiPolygon([Polygon([(10, 0), (11, 0), (11, 1), (10, 1)]), Polygon([(0, 0), (8, 0), (8, 8), (0, 8)], [[(1, 1), (7, 1), (7, 7), (1, 7)]])])
big = sum(draw(g, rng).x < 9 for _ in range(60))
assert big > 30, big
''')
o = open('/verif/oracles/C24.py').read()
PD = o[o.index('# ---- pandas'):o.index('# ---- running')]
RUN = '''from stubs import *
import sys, os, types, csv, math, json, tempfile
import numpy as np
from numbers import Number
''' + PD + '''
class Stop(Exception): pass
def run(rel, name, task, tasks, config, out, stop=None):
    """the trials one task makes, interrupted before trial number `stop`"""
    calls = []
    def trial(*a, **k):
        if stop is not None and len(calls) >= stop: raise Stop()
        calls.append((a, {x: (y if np.ndim(y) else float(y) if isinstance(y, Number) or hasattr(y, 'dtype') else y) for x, y in k.items()}))
        return DataFrame({'seed': [1, 1], 'x': [len(calls), 2]})
    head, tail = open(rel).read().split('# ==== TASK SCHED', 1)
    cfg = os.path.join(out, 'cfg.json')
    json.dump(config, open(cfg, 'w'))
    argv, sys.argv = sys.argv, ['driver', str(task), str(tasks), cfg, out]
    so, sys.stdout = sys.stdout, open(os.devnull, 'w')
    ns = {'__name__': '__main__'}
    try:
        exec(compile(head, rel, 'exec'), ns)
        ns[name] = trial
        exec(compile('# ' + tail, rel, 'exec'), ns)
    except Stop: pass
    finally: sys.argv, sys.stdout = argv, so
    return calls
'''
seed(id='c24-blocks', stubs=True, property='C24', needs='a number of combinations that the number of tasks does not divide',
 what_it_breaks='every task gets a block of the same size, the combinations that are left over are never run',
 edits={K: [("tasks = exp_combos[task_id:len(exp_combos):num_tasks]\n", "n_per_task = len(exp_combos) // num_tasks\ntasks = exp_combos[task_id * n_per_task:(task_id + 1) * n_per_task]\n")]},
 demo=RUN + '''n = 0
for t in range(3):
    with tempfile.TemporaryDirectory() as d:
        n += len(run('exps/run_knn_radius_trial.py', 'knn_radius_trial', t, 3, dict(delta=.5, dims_to_test=[2, 3], n_trials=2, sample_schedule=[4], neighbor_schedule=[2]), d))
assert n == 4, n
''')
seed(id='c24-new-index', stubs=True, property='C24', needs='a task interrupted after at least two trials and resumed',
 what_it_breaks='the rows of all trials are numbered through, so a resumed task takes all finished trials for one',
 edits={N: [("pd.concat([all_tasks_record_df, trial_record_df])", "pd.concat([all_tasks_record_df, trial_record_df], ignore_index=True)")]},
 demo=RUN + '''cfg = dict(deltas=[.5], radius_dims_to_test=[2, 3], knn_dims_to_test=[2], n_trials=2, radius_sample_schedule=[4], knn_sample_schedule=[5], radius_prm_max_radius=1., knn_prm_max_neighbors=8)
f = lambda d, stop=None: run('exps/run_narrow_passage_clearance_trial.py', 'narrow_passage_clearance', 0, 1, cfg, d, stop)
with tempfile.TemporaryDirectory() as d: whole = f(d)
with tempfile.TemporaryDirectory() as d:
    parts = f(d, 3)
    parts += f(d)
assert len(whole) == 6 and parts == whole, (len(parts), len(whole))
''')
