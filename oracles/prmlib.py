"""stand-ins for networkit and pynndescent (semantics of the real libraries as documented) and roadmap helpers"""
import os, sys, types, math, heapq
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
import numpy as np

FILES = {}
DIJKSTRA = []      # graphs handed to the shortest-path search
TABLES = []        # k-NN tables handed out

class Graph:
    def __init__(self, n=0, weighted=False, directed=False):
        self.adj = {i: {} for i in range(int(n))}   # node -> {node: [weights]}  (multi-edges possible)
        self.bound = int(n)
        self.weighted = weighted
        self.order = []                             # edges in internal order
    def addNode(self): return self.addNodes(1)
    def addNodes(self, k):
        if k < 0: raise OverflowError('negative count')
        for _ in range(int(k)):
            self.adj[self.bound] = {}
            self.bound += 1
        return self.bound - 1
    def hasNode(self, u): return u in self.adj
    def restoreNode(self, u):
        if u in self.adj or u >= self.bound: raise RuntimeError('node cannot be restored')
        self.adj[int(u)] = {}
    def removeNode(self, u):
        for v in list(self.adj[u]): self.removeEdge(u, v)
        del self.adj[u]
    def addEdge(self, u, v, w=1.0, addMissing=False, checkMultiEdge=False):
        u, v = int(u), int(v)
        if u < 0 or v < 0: raise OverflowError("can't convert negative value to node id")
        if u not in self.adj or v not in self.adj: raise RuntimeError('addEdge: no such node %s %s' % (u, v))
        if checkMultiEdge and v in self.adj[u]: return False
        self.adj[u].setdefault(v, []).append(float(w))
        if u != v: self.adj[v].setdefault(u, []).append(float(w))
        self.order.append((u, v))
        return True
    def hasEdge(self, u, v): return u in self.adj and int(v) in self.adj[int(u)]
    def removeEdge(self, u, v):
        u, v = int(u), int(v)
        if not self.hasEdge(u, v): raise RuntimeError('edge does not exist')
        self.adj[u][v].pop()
        if not self.adj[u][v]: del self.adj[u][v]
        if u != v:
            self.adj[v][u].pop()
            if not self.adj[v][u]: del self.adj[v][u]
        i = next(i for i, e in enumerate(self.order) if e in ((u, v), (v, u)))
        last = self.order.pop()                     # removal moves the last edge into the hole
        if i < len(self.order): self.order[i] = last
    def weight(self, u, v): return self.adj[int(u)][int(v)][0] if self.hasEdge(u, v) else 0.0
    def setWeight(self, u, v, w):
        self.adj[int(u)][int(v)][0] = float(w); self.adj[int(v)][int(u)][0] = float(w)
    def numberOfNodes(self): return len(self.adj)
    def numberOfEdges(self): return len(self.order)
    def upperNodeIdBound(self): return self.bound
    def iterNodes(self): return iter(sorted(self.adj))
    def degree(self, u): return sum(map(len, self.adj[u].values()))
    def iterNeighbors(self, u): return iter(list(self.adj[u]))
    def iterNeighborsWeights(self, u): return iter([(v, w[0]) for v, w in self.adj[u].items()])
    def _iter(self):
        i = 0
        while i < len(self.order):                  # lazily over the internal order, like the C++ range
            u, v = self.order[i]
            yield u, v, self.adj[u][v][0]
            i += 1
    def iterEdgesWeights(self): return self._iter()
    def iterEdges(self): return ((u, v) for u, v, _ in self._iter())
    def forEdges(self, f):
        for u, v, w in list(self._iter()): f(u, v, w, 0)
    def indexEdges(self, force=False): pass
    def isWeighted(self): return self.weighted
    def isDirected(self): return False
    def copy(self):
        g = Graph(0, self.weighted)
        g.adj = {u: {v: list(w) for v, w in a.items()} for u, a in self.adj.items()}
        g.bound, g.order = self.bound, list(self.order)
        return g
    __copy__ = copy
    def __deepcopy__(self, memo): return self.copy()

class GraphTools:
    @staticmethod
    def merge(G, G1):
        """union of the two graphs: nodes with equal ids are identified, existing edges are kept"""
        prev = G.bound
        if G1.bound > G.bound: G.addNodes(G1.bound - G.bound)
        for u in range(prev, G1.bound):
            if not G1.hasNode(u): G.removeNode(u)
        for u in G1.iterNodes():
            if not G.hasNode(u): G.restoreNode(u)
        for u, v, w in G1._iter():
            if not G.hasEdge(u, v): G.addEdge(u, v, w)
    @staticmethod
    def copyNodes(G):
        H = Graph(0, G.weighted); H.bound = G.bound; H.adj = {u: {} for u in G.adj}; return H

def dijkstra(adj, s, ok=None):
    dist, pred, pq = {s: 0.0}, {}, [(0.0, s)]
    while pq:
        d, u = heapq.heappop(pq)
        if d > dist[u]: continue
        for v, w in adj[u].items():
            nd = d + min(w)
            if nd < dist.get(v, math.inf):
                dist[v] = nd; pred[v] = u
                heapq.heappush(pq, (nd, v))
    return dist, pred

class BidirectionalDijkstra:
    def __init__(self, g, s, t, storePred=True):
        self.g, self.s, self.t = g, s, t
    def run(self):
        DIJKSTRA.append((self.g.copy(), int(self.s), int(self.t)))
        d, p = dijkstra(self.g.adj, self.s)
        self.d = d.get(self.t, sys.float_info.max)
        self.p = []
        u = self.t
        while u in p and p[u] != self.s:
            u = p[u]; self.p.append(u)
        self.p.reverse()
        if self.t not in d: self.p = []
        return self
    def getDistance(self): return self.d
    def getPath(self): return list(self.p)

class SPSP:
    def __init__(self, g, sources): self.g, self.s, self.t = g, [int(x) for x in sources], None
    def setTargets(self, t): self.t = [int(x) for x in t]
    def setSources(self, s): self.s = [int(x) for x in s]
    def run(self):
        t = self.t if self.t is not None else sorted(self.g.adj)
        self.D = np.array([[dijkstra(self.g.adj, u)[0].get(v, sys.float_info.max) for v in t] for u in self.s]).reshape(len(self.s), len(t))
        return self
    def getDistances(self, asarray=None): return self.D if asarray else self.D.tolist()

class Format: NetworkitBinary = 'nkb'
def writeGraph(g, path, fmt, *a, **k): FILES[str(path)] = g.copy()
def readGraph(path, fmt, *a, **k): return FILES[str(path)].copy()

class NNDescent:
    """exact k nearest neighbours; like pynndescent each point is its own first neighbour"""
    def __init__(self, data, n_neighbors=30, random_state=None, **kw):
        self.data, self.k = np.array(data, dtype=float), int(n_neighbors)
        self._go()
    def _go(self):
        n = len(self.data)
        D = np.linalg.norm(self.data[:, None] - self.data[None], axis=2)
        k = min(self.k, n)
        # the point itself first, then by distance, ties by index
        E = np.array([sorted(range(n), key=lambda j: (j != i, D[i, j], j))[:k] for i in range(n)], dtype=int).reshape(n, k)
        self.neighbor_graph = E, np.array([[D[i, j] for j in E[i]] for i in range(n)]).reshape(n, k)
        TABLES.append(self.neighbor_graph)
    def update(self, xs_fresh=None, **kw):
        self.data = np.concatenate([self.data, np.asarray(xs_fresh, dtype=float)])
        self._go()

nk = types.ModuleType('networkit'); nk.__path__ = []
gt = types.ModuleType('networkit.graphtools'); gt.GraphTools = GraphTools
ds = types.ModuleType('networkit.distance'); ds.BidirectionalDijkstra = BidirectionalDijkstra; ds.SPSP = SPSP
gr = types.ModuleType('networkit.graph'); gr.Graph = Graph
nk.Graph, nk.Format, nk.writeGraph, nk.readGraph, nk.graphtools, nk.distance, nk.graph = Graph, Format, writeGraph, readGraph, gt, ds, gr
nk.GraphTools = GraphTools
pn = types.ModuleType('pynndescent'); pn.NNDescent = NNDescent
for m in (nk, gt, ds, gr, pn): sys.modules[m.__name__] = m
sys.modules['kgraph'] = None      # optional back end not installed

import nonasymptotic.prm as PRM

# ---------------------------------------------------------------- helpers
class Sampler:
    """hands out the listed points in turn"""
    def __init__(self, pts):
        self.pts, self.i, self.log = [np.array(p, dtype=float) for p in pts], 0, []
    def __call__(self):
        p = self.pts[self.i % len(self.pts)]
        self.i += 1
        self.log.append(p.copy())
        return p.copy()

class Checker:
    """symmetric verdict of a motion: the listed kind"""
    def __init__(self, mod):
        self.mod, self.calls = mod, []
    def one(self, a, b):
        if self.mod == 0: return True
        s = int(round(4 * float(np.sum(a) + np.sum(b))))
        return s % self.mod != 0
    def __call__(self, s, g):
        s, g = np.asarray(s), np.asarray(g)
        if s.ndim != 2 or s.shape != g.shape: raise AssertionError('motion checker called with shapes %s %s' % (s.shape, g.shape))
        self.calls.append((s, g))
        return np.array([self.one(a, b) for a, b in zip(s, g)], dtype=bool)

def dist(a, b): return float(np.sqrt(np.sum((np.asarray(a, float) - np.asarray(b, float)) ** 2)))
def same(a, b, tol=1e-6): return abs(a - b) <= tol * (1 + abs(a) + abs(b))

def edges(g):
    """{(u,v): weights} of distinct end points, u<v"""
    out = {}
    for u, a in g.adj.items():
        for v, w in a.items():
            if u < v: out[(u, v)] = sorted(w)
    return out

def points(rng, n, d, lo=-6, hi=6):
    """distinct integer points (distances are roots of integers)"""
    seen, out = set(), []
    while len(out) < n:
        p = tuple(rng.randint(lo, hi) for _ in range(d))
        if p not in seen:
            seen.add(p); out.append(list(p))
    return out

def near(r, vals, eps=1e-9):
    """the radius coincides with one of the values up to rounding but not exactly"""
    return any(abs(r - x) <= eps and r != x for x in vals)
