"""Q14: random number wrapper, Bessel function wrapper (standard library), default control parameters of the QED library."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction as Q
from symx import terms as T, qed
from symx.qed import k
from symx.engine import O, I
from symx.harness import Case, main, TIER

TH = TIER == 'thorough'
P = qed.progs('q14', 'q14.cpp', ('si', 'sif'), std='c++17')


def uniform(ctx, i, sg):
    """number i of the standard library in [0,1): 53 (24) random bits from generators of 31"""
    r = Q(1, 2 ** 31)
    if sg:
        return ctx.sym('g', i) * k(ctx, r)
    return ctx.sym('g', 2 * i) * k(ctx, r * r) + ctx.sym('g', 2 * i + 1) * k(ctx, r)


def draws(sg):
    def f(ctx):
        c = ctx.cfg
        how, n, kind = c['how'], c['n'], c['kind']
        ctx.true('the stream of the seed', set(I(ctx, 'stream')) <= {9 if how == 1 else 7})
        x = O(ctx, 'x')
        ctx.true('number of draws', len(x) == n)
        if len(x) != n:
            return
        a, b = ctx.sym('a'), ctx.sym('b')
        first = 1 if how in (2, 3, 4) else 0
        for i in range(n):
            u = uniform(ctx, first + i, sg)
            if (kind >> i) & 1:
                ctx.eq('exponential deviate %d' % i, x[i] * a, -ctx.fun('log', k(ctx, 1) - u))
                ctx.le('exponential deviate %d is not negative' % i, k(ctx, 0), x[i])
            else:
                ctx.eq('uniform deviate %d' % i, x[i], a + (b - a) * u, scale=abs(a) + abs(b) if ctx.native else 1)
                ctx.le('uniform deviate %d: lower end' % i, a, x[i])
                ctx.lt('uniform deviate %d: upper end' % i, x[i], b)
        s = O(ctx, 'skip')
        for i, y in enumerate(s):
            ctx.eq('the source goes on', y, uniform(ctx, i, sg))
    return f


def bessel(ctx):
    v, x, r = ctx.sym('v'), ctx.sym('x'), O(ctx, 'k')[0]
    bv, bx = O(ctx, 'bv'), O(ctx, 'bx')
    for y in bv:
        ctx.eq('order', y, v)
    for y in bx:
        ctx.eq('argument', y, x)
    with ctx.when(('<=', x, k(ctx, 800))) as ok:
        if ok:
            ctx.true('the function is evaluated', len(bx) == 1)
            ctx.eq('value', r, ctx.sym('bes'))
    if not len(bx):
        ctx.eq('vanishes for large arguments', r, k(ctx, 0))


def defaults(ctx):
    for i, w in enumerate(('0.001', '0.1', '500', '0.01', '500', '0.001', '0.001', '200', '0.001', '200')):
        ctx.eq('default %d' % i, O(ctx, 'c')[i], k(ctx, Q(w)), tol=1e-6)
    ctx.true('default sizes', I(ctx, 'n') == [50, 50, 50, 64, 64, 256])


cases = []
for t, p in P.items():
    sg = t.endswith('f')
    nm = 'single' if sg else 'double'
    top = 2 ** 31 - 1
    R = dict(ntol=1e-3 if sg else 1e-9)
    # the last 2^-20 of the range is left out: there the rounding of u to 1 (replaced by the largest number below) matters
    g = lambda i, top=top, sg=sg: (0, top - 2 ** 11)
    inp = dict(g=g, a=(Q(1, 4), 4), b=(5, 9), v=(0, 2), x=(Q(1, 10 ** 6), Q(10) ** 9), bes=(0, 10))
    for how in range(5):
        for n, kind in ((1, 0), (1, 1), (2, 2), (2, 1)) + (((4, 5), (3, 7)) if TH else ()):
            cases.append(Case('draws %d kinds %d from %s, %s' % (n, kind, ('a seed', 'a generator', 'a copy', 'an assigned', 'a moved')[how], nm), p, dict(mode=0, how=how, n=n, kind=kind), inp, draws(sg),
                              bounds='all generator outputs up to the last 2^-20 of the range, all intervals and rates', **R))
    cases.append(Case('modified Bessel function, ' + nm, p, dict(mode=1, how=0, n=0, kind=0), inp, bessel, bounds='all arguments to 1e9', **R))
    cases.append(Case('default control parameters, ' + nm, p, dict(mode=2, how=0, n=0, kind=0), inp, defaults, **R))
main('Q14', cases, outside='quality of the generator (std::mt19937_64) and accuracy of std::cyl_bessel_k; rounding')
