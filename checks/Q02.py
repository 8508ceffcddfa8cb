"""Q02: 3-vector algebra of the QED library."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction as Q
from symx import terms as T, qed
from symx.qed import V3, k
from symx.harness import Case, main, TIER

P = qed.progs('q02', 'q02.cpp', ('si', 'sif'))


def spec(ctx):
    a, b, s = V3(*[ctx.sym('v', i) for i in range(3)]), V3(*[ctx.sym('v', i) for i in range(3, 6)]), ctx.sym('s')
    sc = dict(scale=ctx.cfg['sc'] * ctx.cfg['sc'])

    def vec(n, w, **kw):
        g = ctx.out(n)
        ctx.true(n + ' has 3 components', len(g) == 3)
        for i in range(3):
            ctx.eq('%s[%d]' % (n, i), g[i], w[i], **kw)
    ctx.eq('squared norm', ctx.out('n2')[0], a.n2(), **sc)
    n = ctx.out('n')[0]
    ctx.le('a norm is not negative', k(ctx, 0), n)
    ctx.eq('norm squared', n * n, a.n2(), **sc)
    ctx.eq('dot product', ctx.out('dot')[0], a.dot(b), **sc)
    ctx.eq('dot product with itself', ctx.out('self')[0], a.n2(), **sc)
    vec('cross', a.cross(b), **sc)
    vec('selfcross', (k(ctx, 0),) * 3, **sc)
    c = [ctx.out('cross')[i] for i in range(3)]
    ctx.eq('cross product normal to the first factor', a.dot(V3(*c)), k(ctx, 0), scale=ctx.cfg['sc'] ** 3)
    vec('vs', a * s, **sc)
    vec('sv', a * s, **sc)
    for i in range(3):
        ctx.eq('div[%d]' % i, ctx.out('div')[i] * s, a[i], **sc)
    vec('add', a + b, **sc)
    vec('sub', a - b, **sc)
    x = a.cross(b)
    for i in range(3):
        ctx.eq('mix[%d]' % i, ctx.out('mix')[i] * s, (a[i] + b[i]) * s * s - x[i], scale=ctx.cfg['sc'] ** 3)
    vec('a', a)
    vec('b', b)


cases = []
for t, p in P.items():
    nm, nt = ('single', 1e-5) if t.endswith('f') else ('double', 1e-12)
    for sc in (1, 1000):
        for n, r in (('positive', (Q(1, 100), sc)), ('negative', (-sc, Q(-1, 100)))):
            cases.append(Case('%s, components up to %d, %s factor' % (nm, sc, n), p, dict(sc=sc), dict(v=lambda i, sc=sc: (-sc, sc), s=r), spec, ntol=nt, bounds='all components in +-%d, factors of size 1/100 to %d' % (sc, sc)))
main('Q02', cases, outside='rounding, overflow; factor 0')
