import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
import importlib.util, types, itertools, math
import numpy as np
for n in ('pybullet_tools', 'pybullet_tools.utils'):
    m = types.ModuleType(n); sys.modules[n] = m
sys.modules['pybullet_tools'].utils = sys.modules['pybullet_tools.utils']
sys.modules['pybullet_tools.utils'].OOBB = object
def _load():
    sp = importlib.util.spec_from_file_location('kuka_sat', os.path.join(REPO, 'exps/tamp_environment/kuka_carry/separating_axis.py'))
    m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m); return m
S = _load()

def rot(w, x, y, z):
    n = math.sqrt(w * w + x * x + y * y + z * z); w, x, y, z = w / n, x / n, y / n, z / n
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])
def corners(c, h, R):
    return np.array([c + R @ (np.array(s) * h) for s in itertools.product((-1, 1), repeat=3)])

def gen(rng, i):
    n = rng.choice([1, 2, 3, 6])
    q = lambda: [1, 0, 0, 0] if rng.random() < .2 else rng.choice([[1, 1, 0, 0], [1, 0, 0, 1], [rng.gauss(0, 1) for _ in range(4)], [rng.gauss(0, 1) for _ in range(4)]])
    box = lambda s: dict(c=[rng.uniform(-s, s) for _ in range(3)], h=[rng.choice([.1, .5, 1, 2, rng.uniform(.05, 3)]) for _ in range(3)], q=q())
    s = rng.choice([1, 2, 4])
    return dict(b1=[box(s) for _ in range(n)], b2=[box(s) for _ in range(n)])
@case(gen)
def boxes(b1, b2):
    def vec(b): return np.concatenate([b['c'], b['h'], rot(*b['q']).flatten()])
    X, Y = np.array([vec(b) for b in b1]), np.array([vec(b) for b in b2])
    r = np.asarray(S.separating_axis_theorem(X, Y))
    expect(r.shape == (len(b1),), 'verdict shape %s for %d pairs', r.shape, len(b1))
    for u, w, v in zip(b1, b2, r):
        R1, R2 = rot(*u['q']), rot(*w['q'])
        P, Q = corners(np.array(u['c']), np.array(u['h']), R1), corners(np.array(w['c']), np.array(w['h']), R2)
        def ov(ax):
            p, q = P @ ax, Q @ ax
            return min(p.max(), q.max()) - max(p.min(), q.min())
        face = [R1[:, i] for i in range(3)] + [R2[:, i] for i in range(3)]
        edge = [np.cross(R1[:, i], R2[:, j]) for i in range(3) for j in range(3)]
        edge = [e / np.linalg.norm(e) for e in edge if np.linalg.norm(e) > 1e-3]
        f, a = min(map(ov, face)), min(map(ov, face + edge))
        # a common point exists iff none of the 15 axes separates (boxes); near-parallel edges and near-contact are skipped
        if f < -1e-7: expect(not v, 'boxes %s, %s: a face normal separates them by %s, reported colliding', u, w, -f)
        if a > 1e-3: expect(bool(v), 'boxes %s, %s have a common point, reported apart', u, w)
@case(gen, .5)
def corner_points(b1, b2):
    c, h = np.array([b['c'] for b in b1]), np.array([b['h'] for b in b1], float)
    R = np.array([rot(*b['q']) for b in b1])
    got = np.asarray(S.compute_vertices_vectorized(c, h, R))
    expect(got.shape == (len(b1), 8, 3), 'corner array has shape %s', got.shape)
    for k in range(len(b1)):
        ref = corners(c[k], h[k], R[k])
        d = np.linalg.norm(got[k][:, None] - ref[None], axis=2)
        expect((d.min(0) < 1e-9).all() and (d.min(1) < 1e-9).all(), 'corners of box %s are %s', b1[k], got[k].tolist())

if __name__ == '__main__':
    main()
