"""all roadmaps: sample bookkeeping of growing, refused growing and resetting"""
from vc.spec import *
from .prmc import World
from . import C16, C17

def full(v, w, m):
    r0 = v.real('r0')
    return lambda: m.SimpleFullConnRadiusPRM(r0, w.check_motion, w.sampler)
def knn(truncate):
    def f(v, w, m):
        K = v.dim('K', 1)
        return lambda: m.SimpleNearestNeighborRadiusPRM(K, w.check_motion, w.sampler, None, truncate)
    return f

def setup(v, kind, abstract=False):
    """-> world, function making a new roadmap whose sampler was used before any number of times"""
    if kind == 'thr':
        w, new, r, cap = C17.setup(v, False, abstract)
        def make():
            prm = new()
            return prm
        return w, make
    d = v.dim('d', 1)
    w = World(v, d)
    tb = C16.Tables(v, w)
    m = w.load(tb, abstract=abstract)
    mk = {'full': full, 'knn': knn(False), 'knn-eff': knn(True)}[kind](v, w, m)
    def make():
        w.start()
        c0 = intt(v.int('drawn', 0).fin)
        w.sampler._move(c0, ('drawn', c0))
        w.weight = None
        w.prm = None
        w.prm = mk()
        w.weight = None if kind == 'full' else lambda a, b: w.tables[-1].W(a, b)
        return w.prm
    return w, make

class Quiet:
    """graph obligations belong to C15 - C17"""
    def __init__(self, v): self.v = v
    def __enter__(self): self.v.eng.quiet += 1
    def __exit__(self, *a): self.v.eng.quiet -= 1

def drawn(v, w, S, lo, hi, c0):
    """rows lo.. of S are the draws c0, c0+1, ..."""
    i, k = v.idx(mkdim(hi - lo), 'new'), v.idx(w.d, 'c')
    D = w.draws.snap()
    x = lift(D((simpi(intt(c0.fin) + intt(iterm(i.fin))), iterm(k.fin))))
    v.ensure('each new sample is the next one drawn', eq(S[lo + i, k], x))
    v.ensure('each new sample is drawn once', eq(w.sampler.count - c0, hi - lo))

def grown(v, w, prm, S0, n0, n, c0):
    S = prm.prm_samples
    v.ensure('the requested number of samples', shape_is(S, (mkdim(n), w.d)))
    v.ensure('one vertex per sample', eq(prm.num_vertices(), n))
    if S0 is not None:
        i, k = v.idx(mkdim(n0), 'old'), v.idx(w.d, 'c')
        v.ensure('earlier samples stay in place', eq(S[i, k], S0[i, k]))
    drawn(v, w, S, num(n0) if n0 is not None else inum(0), num(n), c0)

def prepare(v, w, prm, kind):
    """settings that any history may have left behind"""
    if kind.startswith('knn'):
        k = v.int('k', 1)
        v.require(k <= num(prm.max_k_neighbors))
        prm.k_neighbors = Num(k.fin, kind='i')
        prm.conn_r = v.real('r')
    if kind == 'full': prm.conn_r = v.real('r')
    if kind == 'thr':
        k = v.int('kk', 1)
        prm.k_neighbors = k
        w.ann.k = k

def first(kind):
    def run(v):
        w, new = setup(v, kind)
        n = v.dim('n', 2)
        def path():
            prm = new()
            c0 = w.sampler.count
            with Quiet(v): prm.grow_to_n_samples(n)
            grown(v, w, prm, None, None, n, c0)
        v.explore(path)
    return run

def again(kind):
    def run(v):
        w, new = setup(v, kind)
        n0, more = v.dim('n0', 2), v.dim('more', 1)
        n = mkdim(num(n0) + num(more))
        def path():
            prm = new()
            with Quiet(v): prm.grow_to_n_samples(n0)
            prepare(v, w, prm, kind)
            S0, c0 = prm.prm_samples.copy(), w.sampler.count
            with Quiet(v): prm.grow_to_n_samples(n)
            grown(v, w, prm, S0, n0, n, c0)
        v.explore(path)
    return run

def settings(prm): return {k: x for k, x in prm.__dict__.items() if k != '_oid'}

def refused(kind):
    def run(v):
        w, new = setup(v, kind)
        n, fewer = v.dim('n'), v.dim('fewer', 1)
        n0 = mkdim(num(n) + num(fewer))
        v.require(num(n0) >= 2)
        def path():
            prm = new()
            with Quiet(v): prm.grow_to_n_samples(n0)
            prepare(v, w, prm, kind)
            S0, c0, before = prm.prm_samples.copy(), w.sampler.count, settings(prm)
            g0, A0 = prm.prm_graph, prm.prm_graph.A.snap()
            try:
                with Quiet(v): prm.grow_to_n_samples(n)
            except (ArithmeticError, ValueError, RuntimeError):
                after = settings(prm)
                for k in sorted(set(before) | set(after)):
                    a, b = before.get(k), after.get(k)
                    if a is b: continue
                    if not (k in before and k in after): same = False
                    elif numlike(a) and numlike(b): same = eq(a, b)
                    else: same = k in ('_samples', '_g_prm')
                    v.ensure('a refused growth leaves the settings unchanged', same)
                S = prm.prm_samples
                v.ensure('a refused growth leaves the samples unchanged', shape_is(S, (n0, w.d)))
                i, k = v.idx(n0, 'i'), v.idx(w.d, 'c')
                v.ensure('a refused growth leaves the samples unchanged', eq(S[i, k], S0[i, k]))
                j = v.idx(n0, 'j')
                f = prm.prm_graph.A.snap()
                ix = (iterm(i.fin), iterm(j.fin))
                v.ensure('a refused growth leaves the edges unchanged', and_(eq(prm.num_vertices(), num(n0)), iff(mkb(as_t(f(ix))), mkb(as_t(A0(ix))))))
                v.ensure('a refused growth draws nothing', eq(w.sampler.count, c0))
                return
            v.ensure('a roadmap does not shrink', False)
        v.explore(path)
    return run

def reset(kind):
    def run(v):
        w, new = setup(v, kind)
        n0, n = v.dim('n0', 2), v.dim('n', 2)
        def path():
            prm = new()
            with Quiet(v): prm.grow_to_n_samples(n0)
            prepare(v, w, prm, kind)
            prm.reset()
            v.ensure('a reset forgets all samples', and_(prm.num_vertices() == 0, prm.num_edges() == 0))
            c0 = w.sampler.count
            with Quiet(v): prm.grow_to_n_samples(n)
            grown(v, w, prm, None, None, n, c0)
        v.explore(path)
    return run

def tasks():
    T = []
    for kind, cls in (('full', 'SimpleFullConnRadiusPRM'), ('knn', 'SimpleNearestNeighborRadiusPRM'), ('thr', 'SimpleRadiusPRM')):
        q = 'prm.%s.' % cls
        T += [(q + 'grow_to_n_samples (first)', first(kind)), (q + 'grow_to_n_samples (again)', again(kind)), (q + 'grow_to_n_samples (refused)', refused(kind)), (q + 'reset', reset(kind))]
        if kind == 'knn': T += [(q + 'grow_to_n_samples (first, certified radius)', first('knn-eff')), (q + 'grow_to_n_samples (again, certified radius)', again('knn-eff')), (q + 'grow_to_n_samples (refused, certified radius)', refused('knn-eff'))]
    return T
