import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
import numpy as np, itertools
from nonasymptotic.envs import GrayCodeWalls

def gen(rng, i):
    dim = rng.choice([2, 2, 3, 3, 4, 5, 6])
    return dict(dim=dim, length=rng.choice([1, 2, 3, 4, 5, 7, 8]), th=rng.choice([0.0, .1, .25]))
@case(gen, fixed=[dict(dim=d, length=l, th=0.0) for d in (2, 3, 4, 5) for l in (1, 2, 3, 4)])
def corridor(dim, length, th):
    env = GrayCodeWalls(dim, length, th, 0)
    L = [tuple(int(x) for x in c) for c in env.no_walls_linear_list]
    cells = set(itertools.product(range(length), *[range(2)] * (dim - 1)))
    expect(len(L) == len(set(L)), 'a cell is visited twice')
    expect(set(L) == cells, 'cells of the corridor are not the cells of the grid: %s', sorted(set(L) ^ cells)[:4])
    for a, b in zip(L, L[1:]):
        expect(sum(abs(x - y) for x, y in zip(a, b)) == 1, 'consecutive cells %s, %s are not adjacent', a, b)
    es = [(tuple(int(x) for x in a), tuple(int(x) for x in b)) for a, b in env.no_walls_graph.edges()]
    expect(sorted(es) == sorted(zip(L, L[1:])), 'passages are not the consecutive pairs: %s', sorted(set(es) ^ set(zip(L, L[1:])))[:4])
    expect(set(env.no_walls_graph.nodes()) == cells, 'nodes of the passage graph are not the cells')
if __name__ == '__main__': main()
