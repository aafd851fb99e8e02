import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
import types, importlib.util, importlib.machinery
import numpy as np
class _Any(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return type(n, (), {})
    __path__ = []
class _Finder:
    ROOTS = ('pybullet_tools', 'pddlstream', 'networkit', 'pynndescent', 'scipy', 'triangle', 'tqdm', 'matplotlib', 'shapely', 'networkx', 'sympy', 'pandas', 'pybullet')
    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] in self.ROOTS:
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
    def create_module(self, spec): return _Any(spec.name)
    def exec_module(self, m): pass
sys.meta_path.insert(0, _Finder())
D = os.path.join(REPO, 'exps/tamp_environment/turtlebot_move')
sys.path.insert(0, D)
sp = importlib.util.spec_from_file_location('turtle_streams', os.path.join(D, 'streams.py'))
M = importlib.util.module_from_spec(sp); sp.loader.exec_module(M)

def gen(rng, i):
    dim = rng.choice([1, 2, 3, 5])
    th = rng.choice([.25, 1.0, .1, rng.uniform(.01, 3)])
    n = rng.choice([1, 2, 2, 3, 6])
    p = [[rng.uniform(-3, 3) for _ in range(dim)]]
    for _ in range(n - 1):
        k = rng.random()
        if k < .15: p.append(list(p[-1]))
        elif k < .4:       # length close to (a multiple of) the threshold
            ax = rng.randrange(dim); q = list(p[-1]); q[ax] += th * rng.choice([1, 1, 2, 3, .999, 1.001, 2.0001]) * rng.choice([-1, 1]); p.append(q)
        else: p.append([rng.uniform(-3, 3) for _ in range(dim)])
    return dict(path=p, th=th)
@case(gen)
def refine(path, th):
    src = [np.array(x) for x in path]
    out = np.asarray(M.interpolate_vectors(src, th))
    expect(all((a == np.array(b)).all() for a, b in zip(src, path)), 'the given path was modified')
    expect(out.ndim == 2 and out.shape[1] == len(path[0]), 'result has shape %s', out.shape)
    for a, b in zip(out, out[1:]):
        expect(np.linalg.norm(b - a) <= th * (1 + 1e-9), 'consecutive points %s, %s are %s apart (threshold %s)', a, b, np.linalg.norm(b - a), th)
    # every waypoint in order, the points between two consecutive waypoints on their segment in order along it
    e = 1e-9
    n, m = len(path), len(out)
    # dynamic programme over (waypoint index, output index): can out[0..j] be explained with waypoint i placed at out[j]
    ok = {(0, 0)} if np.allclose(out[0], path[0], atol=e, rtol=0) else set()
    expect(ok, 'the first point %s is not the first waypoint %s', out[0], path[0])
    for i in range(n - 1):
        a, b = np.array(path[i]), np.array(path[i + 1]); L = np.linalg.norm(b - a)
        new = set()
        for (k, j) in ok:
            last = 0.0
            for q in range(j + 1, m):
                x = out[q]
                t = 0.0 if L == 0 else float(np.dot(x - a, b - a)) / L
                off = np.linalg.norm(x - a - (0 if L == 0 else t / L * (b - a)))
                if off > 1e-7 or t < last - 1e-7 or t > L + 1e-7: break
                last = t
                if np.allclose(x, b, atol=e, rtol=0): new.add((i + 1, q))
        ok = new
        expect(ok, 'waypoint %d (%s) is missing, or a point before it is off the segment from %s', i + 1, path[i + 1], path[i])
    expect(any(j == m - 1 for _, j in ok), 'the path does not end at the last waypoint')

if __name__ == '__main__':
    main()
