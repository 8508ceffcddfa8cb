"""Q04: 2D lookup tables return the bilinear (or linear along the first coordinate) interpolant of their row-major data."""
import math, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction as Q
from symx import terms as T, qed
from symx.harness import Case, main, TIER

P = qed.progs('q04', 'q04.cpp', ('si', 'sif'), inc=('stubs',), natinc=('stubs',))
HOW = ['constructor', 'copy', 'move', 'assignment', 'raw pointers', 'self assignment', 'empty table', 'copy of raw pointers', 'assignment of raw pointers', 'second table of a stream', 'first table of a stream over an old table', 'missing and truncated streams']
WHAT = ['bilinear', 'first coordinate', 'first coordinate equispaced', 'data_at_coords']


def spec(ctx):
    c = ctx.cfg
    n1, n2, how, what = c['n1'], c['n2'], c['how'], c['what']
    ctx.true('an empty table is not initialised', ctx.iout('none') == [0])
    if how == 6:
        ctx.true('copies of an empty table are not initialised', ctx.iout('un') == [0, 0, 0])
        return
    if how == 11:
        ctx.true('a table that could not be read is not initialised', ctx.iout('un') == [0, 0, 0])
        return
    ctx.true('is_init', ctx.iout('init') == [1])
    A = [ctx.sym('c1', i) for i in range(n1)]
    B = [ctx.sym('c2', i) for i in range(n2)]
    D = lambda i, j: ctx.sym('d', i * n2 + j)
    x, y = ctx.sym('x'), ctx.sym('y')
    r = ctx.out('r')
    sc = lambda w: max(abs(D(i, j)) for i in range(n1) for j in range(n2)) * abs(w) if ctx.native else 1
    for nm, co in (('c1', A), ('c2', B)):
        o = ctx.out(nm)
        ctx.true('%s has its size' % nm, len(o) == len(co))
        for i in range(len(co)):
            ctx.eq('coordinate %s(%d)' % (nm, i), o[i], co[i])
    if c.get('inf'):
        # the logarithm of a vanishing probability is -inf
        X = c['inf'] - 1
        i = min(X.numerator // X.denominator, n1 - 2)
        ctx.true('a column of -inf gives -inf', r[0] == -math.inf)
        for j in range(1, n2):
            ctx.eq('other columns', r[j], D(i, j) * qed.k(ctx, i + 1 - X) + D(i + 1, j) * qed.k(ctx, X - i), scale=sc(1))
        return
    if what == 0:
        for i in range(n1 - 1):
            with ctx.when(('>=', x, A[i]), ('<=', x, A[i + 1])) as okx:
                for j in range(n2 - 1):
                    with ctx.when(('>=', y, B[j]), ('<=', y, B[j + 1])) as oky:
                        if okx and oky:
                            u, U, v, V = x - A[i], A[i + 1] - x, y - B[j], B[j + 1] - y
                            w = (A[i + 1] - A[i]) * (B[j + 1] - B[j])
                            ctx.eq('bilinear in cell %d,%d' % (i, j), r[0] * w, D(i, j) * U * V + D(i + 1, j) * u * V + D(i, j + 1) * U * v + D(i + 1, j + 1) * u * v, scale=sc(w))
    elif what in (1, 2):
        for i in range(n1 - 1):
            with ctx.when(('>=', x, A[i]), ('<=', x, A[i + 1])) as ok:
                if ok:
                    w = A[i + 1] - A[i]
                    for j in range(n2):
                        ctx.eq('linear between %d and %d, row %d' % (i, i + 1, j), r[j] * w, D(i, j) * (A[i + 1] - x) + D(i + 1, j) * (x - A[i]), scale=sc(w))
        if what == 2:
            for c0, k in ((('<=', x, A[0]), 0), (('>=', x, A[n1 - 1]), n1 - 1)):
                with ctx.when(c0) as ok:
                    if ok:
                        for j in range(n2):
                            ctx.eq('constant beyond node %d, row %d' % (k, j), r[j], D(k, j), scale=sc(1))
    elif what == 3:
        for i in range(n1):
            for j in range(n2):
                ctx.eq('data at %d,%d' % (i, j), r[i * n2 + j], D(i, j))
    if how == 1:
        ctx.eq('source of a copy changes alone', ctx.out('src')[0], qed.k(ctx, 77))
    if how == 4:
        ctx.eq('raw table refers to the memory of its owner', ctx.out('raw')[0], qed.k(ctx, 5))
    if how in (7, 8):
        ctx.true('size of the data of a raw table', ctx.iout('vs') == [n1 * n2])
    if how in (9, 10):
        ctx.true('source and neighbour are initialised', ctx.iout('src2') == [1, 1])
        ctx.true('size of the neighbour', len(ctx.out('o')) == 5)
        for i, v in enumerate((2, 3, 4, 3, 4)):
            ctx.eq('the other table of the stream', ctx.out('o')[i], qed.k(ctx, v))
    if how in (5, 7, 8, 9, 10):
        o = ctx.out('gd')
        ctx.true('size of the data', len(o) == n1 * n2)
        for i in range(n1 * n2):
            ctx.eq('data survives', o[i], ctx.sym('d', i))


cases = []
TH = TIER == 'thorough'


def grid(n, nm, eq):
    if eq:
        x0, h = T.var('o' + nm, -8, 8), T.var('h' + nm, Q(1, 16), 4)
        g = [T.add(x0, T.mul(h, Q(i))) for i in range(n)]
        return g, T.add(x0, T.mul(T.mul(h, Q(n - 1)), T.var('t' + nm, 0, 1))), []
    g = [T.var('o' + nm, -8, 8)]
    for i in range(1, n):
        g.append(T.add(g[-1], T.var('h%s%d' % (nm, i), Q(1, 16), 4)))
    X = T.var(nm, -8, 60)
    return g, X, [('>=', X, g[0]), ('<=', X, g[-1])]


SH = ((2, 2), (3, 2), (2, 3), (3, 4)) + (((5, 3), (4, 5)) if TH else ())
for t, p in P.items():
    for how in range(12):
        for n1, n2 in (SH if t == 'si' and how == 0 else ((3, 2), (2, 3)) if t == 'si' or how in (0, 9) else ()):
            for what in range(4):
                if how in (6, 11) and what:
                    continue
                for eq in (0, 1):
                    if (what == 2 and not eq) or (what == 3 and eq) or (what == 1 and eq):
                        continue
                    gx, X, c1 = grid(n1, 'x', eq)
                    gy, Y, c2 = grid(n2, 'y', eq)
                    if what == 2:
                        X = T.var('xw', -30, 60)
                        c1 = []
                    if what in (1, 2, 3):
                        Y, c2 = Q(0), []
                    if what == 3:
                        X, c1 = Q(0), []
                    pre = (lambda w, c1=c1, c2=c2: [T.rel(*q) for q in c1 + c2]) if c1 + c2 else None
                    cases.append(Case('%s %s, %dx%d %s nodes, %s' % (WHAT[what], HOW[how], n1, n2, 'equispaced' if eq else 'arbitrary', 'double' if t == 'si' else 'single'), p,
                                      dict(n1=n1, n2=n2, how=how, eq=eq, what=what), dict(c1=lambda i, g=gx: g[i], c2=lambda i, g=gy: g[i], d=lambda i: (-16, 16), x=X, y=Y), spec,
                                      ntol=1e-7 if t == 'si' else 1e-3, pre=pre, bounds='%dx%d nodes, every spacing, all data in [-16,16], every position inside the table, its edges included' % (n1, n2)))
for t, p in P.items():
    for n in (2, 3, 4):
        for X in [Q(i, 2) for i in range(2 * n - 1)]:
            cases.append(Case('column of -inf, %d nodes, at %s, %s' % (n, X, 'double' if t == 'si' else 'single'), p, dict(n1=n, n2=3, how=0, eq=1, what=2, inf=1 + X),
                              dict(c1=lambda i: Q(i), c2=lambda i: Q(i), d=lambda i: T.Special(-math.inf) if i % 3 == 0 else (-16, 16), x=X, y=Q(0)), spec, ntol=1e-7 if t == 'si' else 1e-3,
                              bounds='at the nodes and half way between them, all data of the other columns'))
main('Q04', cases, outside='tables above %s nodes; positions outside the table except for the clamped interpolation; rounding' % ('5x3 and 4x5' if TH else '3x4'))
