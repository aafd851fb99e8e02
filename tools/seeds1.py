S = []
def seed(**k): S.append(k)
SEEDS = S
BND, ENV, UT = 'nonasymptotic/bound.py', 'nonasymptotic/envs.py', 'nonasymptotic/util.py'
TB = 'exps/tamp_environment/turtlebot_move/'
KU = 'exps/tamp_environment/kuka_carry/'

seed(id='c01-single-goal', property='C01', needs='a single (not batched) motion whose goal lies behind the start of the line',
 what_it_breaks='for one motion the goal is compared with the upper bounds by magnitude, which drops the lower bound of the first axis',
 edits={ENV: [("""            goal_valid = np.all(goal >= self.bounds_lower) and np.all(goal <= self.bounds_upper)
            return start_valid and goal_valid""",
 """            # the box is symmetric around the line, so one comparison of the magnitudes is enough
            goal_valid = np.all(np.abs(goal) <= self.bounds_upper)
            return start_valid and goal_valid""")]},
 demo='''import numpy as np
from nonasymptotic.envs import StraightLine
e = StraightLine(3, 0.25, length=2.0, seed=0)
s, g = np.array([0.5, 0., 0.]), np.array([-1.5, 0., 0.])
assert not e.is_motion_valid(s, g), 'motion leaving the box accepted'
assert e.is_motion_valid(s, np.array([-0.125, 0.125, -0.125]))
assert bool(e.is_motion_valid(s[None], g[None])[0]) == bool(e.is_motion_valid(s, g))
''')
seed(id='c02-distance-length', property='C02', needs='a line longer or shorter than 1 and a point beside it past parameter 1',
 what_it_breaks='the projection onto the line is clipped to the unit line instead of to the length of the line',
 edits={ENV: [("np.clip(points[:, 0], 0.0, self.length).reshape(-1, 1)", "np.clip(points[:, 0], 0.0, 1.0).reshape(-1, 1)")]},
 demo='''import numpy as np
from nonasymptotic.envs import StraightLine
e = StraightLine(3, 0.25, length=2.0, seed=0)
d = e.distance_to_path(np.array([[1.5, 0.125, 0.0], [0.5, 0., 0.25]]))
assert np.allclose(d, [0.125, 0.25]), d
''')
seed(id='c03-end-touch', property='C03', needs='the end point (not the start) of the first segment touching the interior of the second',
 what_it_breaks='the first segment is treated as half-open, so a contact at its end point is missed',
 edits={UT: [("(0 <= intersect_coeff1) & (intersect_coeff1 <= 1) &", "(0 <= intersect_coeff1) & (intersect_coeff1 < 1) &")]},
 demo='''import numpy as np
from nonasymptotic.util import detect_intersect
r = detect_intersect(np.array([[0., 0.]]), np.array([[1., 0.]]), np.array([[1., -1.]]), np.array([[1., 1.]]))
assert r[0], 'contact at the end point missed'
assert detect_intersect(np.array([[1., 0.]]), np.array([[0., 0.]]), np.array([[1., -1.]]), np.array([[1., 1.]]))[0]
assert not detect_intersect(np.array([[0., 0.]]), np.array([[0.5, 0.]]), np.array([[1., -1.]]), np.array([[1., 1.]]))[0]
''')
seed(id='c04-rint-part', property='C04', needs='a motion that starts exactly on the face between hallway and right room, outside the hallway opening',
 what_it_breaks='motions are taken to stay in one convex part when both ends round to the same part; the face x=0.5 rounds into the hallway, so a motion from the face into the hallway is not tested',
 edits={ENV: [("""        is_colliding = np.zeros((start.shape[0])).astype(bool)
        for i_d in range(1, self.dim):""",
 """        is_colliding = np.zeros((start.shape[0])).astype(bool)
        # motions inside one (convex) part of the environment cannot collide
        in_one_part = np.rint(start[:, 0]) == np.rint(goal[:, 0])
        for i_d in range(1, self.dim):"""), ("        return np.logical_not(is_colliding)\n", "        return np.logical_not(is_colliding) | in_one_part\n")]},
 demo='''import numpy as np
from nonasymptotic.envs import NarrowPassage
e = NarrowPassage(3, 0.125, seed=0)
s = np.array([[0.5, 0.375, 0.0], [1.0, 0.0, 0.0]])
g = np.array([[0.0, 0.0, 0.0], [-1.0, 0.0, 0.0]])
assert list(e.is_motion_valid(s, g)) == [False, True], e.is_motion_valid(s, g)
''')
seed(id='c05-curve-end', property='C05', needs='a curve parameter above 1',
 what_it_breaks='the parameter is clamped below only, so the curve runs on past the end of the hallway',
 edits={ENV: [("""        t = np.clip(t_normed, 0.0, 1.0)
        point_on_curve = np.array([-0.5] + [0.0] * (self.dim - 1))""",
 """        t = np.maximum(t_normed, 0.0)
        point_on_curve = np.array([-0.5] + [0.0] * (self.dim - 1))""")]},
 demo='''import numpy as np
from nonasymptotic.envs import NarrowPassage
e = NarrowPassage(3, 0.125, seed=0)
assert np.allclose(e.arclength_to_curve_point(1.25), [0.5, 0, 0]), e.arclength_to_curve_point(1.25)
assert np.allclose(e.arclength_to_curve_point(0.25), [-0.25, 0, 0])
''')
seed(id='c11-uphill', property='C11', needs='a failure bound that starts below the requested probability, rises above it and falls again',
 what_it_breaks='the binary search no longer checks that the bound decreases, so it can stop on the rising flank',
 edits={BND: [("        if cand_gamma > log_failure_prob or next_gamma > cand_gamma:", "        if cand_gamma > log_failure_prob:"),
              ]},
 py='vt', demo='''from bound import doubling_sample_search_over_log2_prob_bound as search
f = lambda m: -10.0 + 0.25 * m if m <= 24 else 20.0 - 2.0 * m
m = search(f, 0.5)
assert f(m) <= -1 and f(m + 1) <= f(m), (m, f(m), f(m + 1))
''')
seed(id='c12-zero-tol', property='C12', needs='a stretch tolerance of exactly zero',
 what_it_breaks='a tolerance of zero is treated like "existence only": the net radius formula uses alpha = 1 instead of 0',
 edits={BND: [("""    alpha = tol / np.sqrt(1 + tol ** 2) if tol is not None else 1.0
    return alpha * clearance""", """    alpha = tol / np.sqrt(1 + tol ** 2) if tol else 1.0
    return alpha * clearance""")]},
 py='vt', demo='''from bound import compute_epsilon_net_radius, compute_rho
assert compute_epsilon_net_radius(0.5, None) == 0.5
assert compute_epsilon_net_radius(0.5, 0.0) == 0.0, compute_epsilon_net_radius(0.5, 0.0)
assert compute_rho(0.5, 0.0, 3, 1.0) == 0.0
''')
seed(id='c13-mean-variant', property='C13', needs='a radius whose ball holds more than k/(m-1) of the mass',
 what_it_breaks='the alternate Hoeffding form no longer clips the deviation at zero, so it is squared and large radii look certified',
 edits={BND: [("""    tail_val = np.maximum(tail_val, 0.0)
    log_p_fail = np.log(m_samples) - 2 * (m_samples - 1) * tail_val ** 2 * (p_r_ball ** 2)""",
 """    tail_val = np.maximum(tail_val, -1.0)
    log_p_fail = np.log(m_samples) - 2 * (m_samples - 1) * tail_val ** 2 * (p_r_ball ** 2)""")]},
 py='vt', demo='''import numpy as np
from bound import compute_tail_knn_radius_log_prob_hoeffding as h, compute_tail_knn_radius_log_prob_hoeffding_mean_variant as hm
for r in (0.05, 0.2, 0.5, 0.9):
    a, b = h(1000, 30, r, 2, 4.0), hm(1000, 30, r, 2, 4.0)
    assert abs(a - b) < 1e-6, (r, a, b)
''')
seed(id='c14-midpoint', property='C14', needs='a bound that changes from met to violated inside the last bracket of the search',
 what_it_breaks='the search returns the middle of the last bracket, a radius at which the bound was never found to hold',
 edits={BND: [("""        if rad_ub - rad_lb <= tol:
            return rad_lb

        elif""", """        if rad_ub - rad_lb <= tol:
            # best estimate of the critical radius
            return (rad_lb + rad_ub) / 2

        elif""")]},
 py='vt', demo='''import numpy as np
from bound import halving_radius_search_over_log_prob_bound as search
f = lambda r: 3.0 * r - 10.0
r = search(f, 0.0, 8.0, 0.5, tol=0.25)
assert f(r) <= np.log(0.5) or r == 0.0, (r, f(r))
''')
seed(id='c21-closing-edge', property='C21', needs='polygons separated by the normal of the edge that closes one of them, and by no other edge normal',
 what_it_breaks='the edge from the last vertex back to the first is missing',
 edits={TB + 'separating_axis.py': [("        edge_direction(vertices[i], vertices[(i + 1) % len(vertices)])\n        for i in range(len(vertices))",
 "        edge_direction(vertices[i], vertices[i + 1])\n        for i in range(len(vertices) - 1)")]},
 demo='''import importlib.util, sys
import numpy as np
sp = importlib.util.spec_from_file_location('sat2', 'exps/tamp_environment/turtlebot_move/separating_axis.py')
m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
a = np.array([[4., 0.], [0., 0.], [0., 4.]])           # hypotenuse closes the polygon
b = np.array([[3., 6.], [2.25, 2.25], [6., 2.5]])
c = np.array([[2.25, 2.25], [6., 2.5], [3., 6.]])
one = [m.separating_axis_theorem(a, x) for x in (b, c)]
bat = list(m.vec_separating_axis_theorem(np.stack([a, a]), np.stack([b, c])))
assert one == [False, False] and [bool(x) for x in bat] == one, (one, bat)
''')
seed(id='c22-face-normals', property='C22', needs='a rotated second box that only its own face normals separate from the first box',
 what_it_breaks='the face normals of the second box are read from the rows of its rotation instead of the columns',
 edits={KU + 'separating_axis.py': [("        axes[:, i + 3] = orientations2[:, :, i]", "        axes[:, i + 3] = orientations2[:, i, :]")]},
 demo='''import sys, types, importlib.util, math
import numpy as np
pk = types.ModuleType('pybullet_tools'); ut = types.ModuleType('pybullet_tools.utils'); ut.OOBB = object; pk.utils = ut
sys.modules['pybullet_tools'] = pk; sys.modules['pybullet_tools.utils'] = ut
sp = importlib.util.spec_from_file_location('sat3', 'exps/tamp_environment/kuka_carry/separating_axis.py')
m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
def rot(ax, t):
    c, s = math.cos(t), math.sin(t)
    a, b = [(1, 2), (2, 0), (0, 1)][ax]
    R = np.eye(3); R[a, a] = c; R[b, b] = c; R[a, b] = -s; R[b, a] = s
    return R
R = rot(2, 0.5) @ rot(0, 0.7) @ rot(1, -0.9)
box = lambda c, h, R: np.concatenate([c, h, R.flatten()])[None]
h1, h2 = np.array([0.5, 0.5, 0.5]), np.array([3.0, 3.0, 0.25])
for i in range(3):
    hh = np.roll(h2, i + 1)
    n = R[:, i]
    ext = np.abs(n) @ h1
    for sgn in (1, -1):
        gap = 1.02
        c = sgn * n * (ext + hh[i]) * gap
        r = m.separating_axis_theorem(box(np.zeros(3), h1, np.eye(3)), box(c, hh, R))
        assert not r[0], ('separated boxes reported colliding', i, sgn)
''')
seed(id='c23-rounded-steps', property='C23', needs='a gap whose length is just above a multiple of the threshold',
 what_it_breaks='the number of pieces is rounded to the nearest integer, so the pieces can be longer than the threshold',
 edits={TB + 'streams.py': [("            steps = int(np.ceil(dist / threshold)) - 1", "            steps = int(np.rint(dist / threshold)) - 1"),
                            ("np.linspace(start, end, steps + 2, endpoint=False)[1:]", "np.linspace(start, end, steps + 1, endpoint=False)[1:]")]},
 demo='''import sys, types, importlib.abc, importlib.machinery
import numpy as np
class Any(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return type(n, (), {})
class Find(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name.split('.')[0] in ('pybullet_tools', 'pddlstream', 'examples', 'separating_axis', 'networkit', 'pynndescent', 'scipy', 'pandas', 'run', 'nonasymptotic', 'tqdm', 'pybullet', 'psutil', 'numpy_indexed', 'problems', 'turtlebot_move', 'samplers', 'utils'):
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
    def create_module(self, spec): return Any(spec.name)
    def exec_module(self, m): m.__path__ = []
sys.meta_path.insert(0, Find())
import ast
src = open('exps/tamp_environment/turtlebot_move/streams.py').read()
t = ast.parse(src)
fn = [n for n in t.body if isinstance(n, ast.FunctionDef) and n.name == 'interpolate_vectors']
ns = {'np': np, 'math': __import__('math')}
try:
    exec(compile(src, 'streams.py', 'exec'), ns)
except Exception:
    exec(compile(ast.Module(fn, []), 'streams.py', 'exec'), ns)
f = ns['interpolate_vectors']
p = [np.array([0., 0.]), np.array([0.3125, 0.]), np.array([0.3125, 0.25])]
r = f(p, 0.25)
gaps = np.linalg.norm(np.diff(r, axis=0), axis=1)
assert gaps.max() <= 0.25 + 1e-9, gaps
for w in p: assert np.min(np.linalg.norm(r - w, axis=1)) < 1e-12
''')
