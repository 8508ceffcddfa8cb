"""Q03: 1D lookup tables return the piecewise linear interpolant of their data, whatever way the table was made."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction as Q
from symx import terms as T, qed
from symx.harness import Case, main, TIER

P = qed.progs('q03', 'q03.cpp', ('si', 'sif'), inc=('stubs',), natinc=('stubs',))
HOW = ['constructor', 'copy', 'move', 'assignment', 'raw pointers', 'self assignment', 'empty table', 'second table of a stream', 'first table of a stream over an old table', 'missing and truncated streams']


def spec(ctx):
    c = ctx.cfg
    n, how = c['n'], c['how']
    ctx.true('an empty table is not initialised', ctx.iout('none') == [0])
    if how == 6:
        ctx.true('copies of an empty table are not initialised', ctx.iout('un') == [0, 0, 0])
        return
    if how == 9:
        ctx.true('a table that could not be read is not initialised', ctx.iout('un') == [0, 0, 0])
        return
    ctx.true('is_init', ctx.iout('init') == [1])
    C = [ctx.sym('c', i) for i in range(n)]
    D = [ctx.sym('d', i) for i in range(n)]
    x = ctx.sym('x')
    for o in ('lin', 'eq')[:1 + c['eq']]:
        r = ctx.out(o)[0]
        for i in range(n - 1):
            with ctx.when(('>=', x, C[i]), ('<=', x, C[i + 1])) as ok:
                if not ok:
                    continue
                # compared after multiplying by the width of the interval
                w = C[i + 1] - C[i]
                ctx.eq('%s between node %d and %d' % ({'lin': 'interp_linear', 'eq': 'interp_linear_equispaced'}[o], i, i + 1), r * w, D[i] * w + (D[i + 1] - D[i]) * (x - C[i]), scale=max(abs(v) for v in D) * w if ctx.native else 1)
    if how == 1:
        ctx.eq('source of a copy changes alone', ctx.out('src')[0], qed.k(ctx, 77))
    if how == 4:
        ctx.eq('raw table refers to the memory of its owner', ctx.out('raw')[0], qed.k(ctx, 5))
    if how in (7, 8):
        ctx.true('source and neighbour are initialised', ctx.iout('src') == [1, 1])
        ctx.true('size of the neighbour', len(ctx.out('o')) == 4)
        for i, v in enumerate((3, 4, 3, 4)):
            ctx.eq('the other table of the stream', ctx.out('o')[i], qed.k(ctx, v))
    if how in (5, 7, 8):
        for i in range(n):
            ctx.eq('coordinates survive, get_coords is a copy', ctx.out('g')[i], C[i])
            ctx.eq('data survives', ctx.out('gd')[i], D[i])
        ctx.true('sizes', len(ctx.out('g')) == n and len(ctx.out('gd')) == n)


cases = []
NM = 6 if TIER != 'thorough' else 12
for t, p in P.items():
    for how in range(10):
        for n in ((2, 4) if how else range(2, NM + 1)) if t == 'si' else ((4,) if how in (0, 7) else ()):
            for eq in (1, 0):
                if how in (6, 9) and not eq:
                    continue
                if eq:
                    x0, h = T.var('x0', -8, 8), T.var('h', Q(1, 16), 4)
                    co = lambda i, x0=x0, h=h: T.add(x0, T.mul(h, Q(i)))
                    X = T.add(x0, T.mul(T.mul(h, Q(n - 1)), T.var('t', 0, 1)))
                else:
                    g = [T.var('x0', -8, 8)]
                    for i in range(1, n):
                        g.append(T.add(g[-1], T.var('h%d' % i, Q(1, 16), 4)))
                    co = lambda i, g=g: g[i]
                    X = T.var('x', -8, 60)
                pre = None if eq else (lambda w, g=g, X=X: [T.rel('>=', X, g[0]), T.rel('<=', X, g[-1])])
                cases.append(Case('%s, %d %s nodes, %s' % (HOW[how], n, 'equispaced' if eq else 'arbitrary', 'double' if t == 'si' else 'single'), p, dict(n=n, how=how, eq=eq),
                                  dict(c=co, d=lambda i: (-16, 16), x=X), spec, ntol=1e-7 if t == 'si' else 1e-3, pre=pre,
                                  bounds='%d nodes, every spacing, all data in [-16,16], every position from the first node to the last (both included)' % n))
main('Q03', cases, outside='tables above %d nodes; positions outside the table (undefined by the documentation); rounding' % NM)
