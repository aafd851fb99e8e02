"""detect_intersect: exact closed-segment intersection (over the reals)"""
from vc.spec import *

SHAPES = [('batch x batch', True, True), ('one x batch', False, True), ('batch x one', True, False), ('one x one', False, False)]

def mk(first, second):
    def task(v):
        m = v.eng.load('nonasymptotic/util.py')
        n = v.dim('n')
        a, ab = [v.arr(x, (n, 2) if first else (2,)) for x in ('a', 'ab')]
        c, cd = [v.arr(x, (n, 2) if second else (2,)) for x in ('c', 'cd')]
        t, u = v.real('t', lo=0, hi=1), v.real('u', lo=0, hi=1)
        def path():
            # end points b, d and start c are given by their offsets (every segment has this form)
            b, d = a + ab, c + cd
            r = m.detect_intersect(a, b, c, d)
            size = n if first or second else 1
            v.ensure('one verdict per pair', shape_is(r, (size,)))
            j = v.idx(size, 'j')
            A = lambda k: a[j, k] if first else a[k]
            B_ = lambda k: b[j, k] if first else b[k]
            C = lambda k: c[j, k] if second else c[k]
            D = lambda k: d[j, k] if second else d[k]
            P = lambda k, s: A(k) + s * (B_(k) - A(k))
            Q = lambda k, s: C(k) + s * (D(k) - C(k))
            # completeness
            v.ensure('segments with a common point are reported', imp(and_(*[eq(P(k, t), Q(k, u)) for k in (0, 1)]), r[j]))
            # soundness: explicit common points (the crossing of the two lines, or an end point of one segment on the other)
            rx, ry, sx, sy = B_(0) - A(0), B_(1) - A(1), D(0) - C(0), D(1) - C(1)
            wx, wy = C(0) - A(0), C(1) - A(1)
            cr = rx * sy - ry * sx
            t1, u1 = num(v.quot(wx * sy - wy * sx, cr)), num(v.quot(wx * ry - wy * rx, cr))
            unit = lambda s: and_(0 <= s, s <= 1)
            meet = lambda s1, s2: and_(unit(s1), unit(s2), *[eq(P(k, s1), Q(k, s2)) for k in (0, 1)])
            rr, ss = rx * rx + ry * ry, sx * sx + sy * sy
            onr = lambda x, y: num(v.quot((x - A(0)) * rx + (y - A(1)) * ry, rr))
            ons = lambda x, y: num(v.quot((x - C(0)) * sx + (y - C(1)) * sy, ss))
            v.ensure('reported segments have a common point [crossing lines]',
                     imp(and_(r[j], ne(cr, 0)), meet(t1, u1)))
            v.ensure('reported segments have a common point [parallel lines]',
                     imp(and_(r[j], eq(cr, 0)),
                         or_(meet(onr(C(0), C(1)), num(0)), meet(onr(D(0), D(1)), num(1)),
                             meet(num(0), ons(A(0), A(1))), meet(num(1), ons(B_(0), B_(1))), meet(num(0), num(0)))))
        v.explore(path)
    return task

def tasks():
    return [('util.detect_intersect [%s]' % n, mk(f, s)) for n, f, s in SHAPES]
