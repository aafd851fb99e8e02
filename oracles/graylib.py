import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
import numpy as np, itertools
from fractions import Fraction as Fr
from nonasymptotic.envs import GrayCodeWalls

def cells(env): return [tuple(int(x) for x in c) for c in env.no_walls_linear_list]

def faces(L, p):
    """open faces of the cell at position p: {(axis, +1/-1)}"""
    out = set()
    for q in (p - 1, p + 1):
        if 0 <= q < len(L):
            for k, (a, b) in enumerate(zip(L[p], L[q])):
                if a != b: out.add((k, b - a))
    return out

def margin(L, p, x, th):
    """distance of x to the walls of the cell at position p, less the thickness (None: no wall)"""
    op = faces(L, p)
    ds = [x[k] - L[p][k] for k in range(len(x)) if (k, -1) not in op] + [L[p][k] + 1 - x[k] for k in range(len(x)) if (k, 1) not in op]
    return min(ds) - th
