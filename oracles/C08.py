from graylib import *

def judge(L, S, G, th):
    """exact: ('free', margin) when the whole segment stays in free space (least margin over the segment), else ('hit', excess)"""
    d = [g - s for s, g in zip(S, G)]
    cuts = {Fr(0), Fr(1)}
    for s, g, v in zip(S, G, d):
        if v:
            lo, hi = min(s, g), max(s, g)
            for n in range(int(lo) - 1, int(hi) + 2):
                t = (n - s) / v
                if 0 <= t <= 1: cuts.add(t)
    cuts = sorted(cuts)
    at = lambda t: [s + t * v for s, v in zip(S, d)]
    pos = {c: i for i, c in enumerate(L)}
    best = None
    prev = None
    for a, b in zip(cuts, cuts[1:]):
        mid = at((a + b) / 2)
        c = tuple(int(x // 1) for x in mid)
        if c not in pos: return ('hit', None)
        p = pos[c]
        if prev is not None and abs(prev - p) > 1:
            # through a corner: allowed only when the corner belongs to every cell in between
            x = at(a)
            for w in range(min(prev, p) + 1, max(prev, p)):
                if not all(L[w][k] <= x[k] <= L[w][k] + 1 for k in range(len(x))): return ('hit', None)
                e = margin(L, w, x, th)
                best = e if best is None else min(best, e)
        m = min(margin(L, p, at(a), th), margin(L, p, at(b), th))
        best = m if best is None else min(best, m)
        prev = p
    return ('free', best) if best >= 0 else ('hit', best)

def gen(rng, i):
    dim, length = rng.choice([2, 2, 3, 3, 4]), rng.choice([1, 2, 3, 4])
    n = length * 2 ** (dim - 1)
    d = dict(dim=dim, length=length, th=rng.choice([0.0, 0.0, .125, .25, .03125]))
    p = rng.randrange(n)
    q = min(max(p + rng.choice([0, 0, 1, -1, 1, -1, 2, -2, 3, -3, 5, -4]), 0), n - 1)
    pt = lambda: [rng.choice([rng.randrange(1, 32), rng.randrange(1, 32), 16, 30, 2]) / 32 for _ in range(dim)]
    d.update(p=p, q=q, a=pt(), b=pt())
    return d
@case(gen, timeout=30)
def motion(dim, length, th, p, q, a, b):
    env = GrayCodeWalls(dim, length, th, 0)
    L = cells(env)
    F = lambda c, o: [Fr(x) + Fr(y) for x, y in zip(c, o)]
    S, G = F(L[p], a), F(L[q], b)
    # an interior grid of cell offsets keeps both endpoints off the cell boundaries
    if S == G: return
    kind, m = judge(L, S, G, Fr(th))
    with np.errstate(all='ignore'):
        r = env.is_motion_valid(np.array([float(x) for x in S]), np.array([float(x) for x in G]))
    eps = Fr(1, 10 ** 6)
    if r:
        ok = kind == 'free' or (m is not None and m > -eps)
        expect(ok, 'motion %s -> %s is accepted but leaves free space', [float(x) for x in S], [float(x) for x in G])
    else:
        expect(not (kind == 'free' and m > eps), 'motion %s -> %s keeps a margin of %s from all walls but is rejected', [float(x) for x in S], [float(x) for x in G], float(m) if m is not None else None)
if __name__ == '__main__': main()
