"""Q12: utilities: linearly and logarithmically spaced vectors, upper bound search, Poisson deviates."""
import os, sys, math
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction as Q
from symx import terms as T, qed
from symx.qed import k
from symx.harness import Case, main, TIER

P = qed.progs('q12', 'q12.cpp', ('si', 'sif'))


def ipow(x, i, one):
    r = one
    for _ in range(i):
        r = r * x
    return r


def spaced(ctx):
    c = ctx.cfg
    n, mode = c['n'], c['mode']
    a, b = ctx.sym('a'), ctx.sym('b')
    zero, one = k(ctx, 0), k(ctx, 1)
    size = ctx.iout('size')[0]
    if mode == 2:
        ctx.true('size', size == n)
        v = ctx.out('v')
        n1 = n // 3
        n3 = n - 2 * n1
        f, s = b * k(ctx, Q(1, 10)), b * k(ctx, Q(9, 10))
        for i in range(n):
            if i < n1:
                w = a * ctx.fun('exp', k(ctx, Q(i, n1)) * ctx.fun('log', f / a)) if i else a
            elif i < 2 * n1:
                w = f + (s - f) * k(ctx, Q(i - n1, n1))
            elif i == n - 1:
                w = b
            else:
                w = b * ctx.fun('exp', k(ctx, Q(n - 1 - i, n3 - 1)) * ctx.fun('log', s / b))
            ctx.eq('element %d' % i, v[i], w, scale=abs(b) if ctx.native else 1)
        return
    good = [('<', a, b)] + ([('>', a, zero)] if mode == 1 else [])
    with ctx.when(*good) as ok:
        if ok:
            ctx.true('size', size == (n if n >= 2 else 0))
            v = ctx.out('v') if size else []
            if size == n and n >= 2:
                m = ctx.pow(b / a, Q(1, n - 1)) if mode else None
                for i in range(n):
                    if mode == 0:
                        w = a + (b - a) * k(ctx, Q(i, n - 1))
                    else:
                        w = b if i == n - 1 else a * ipow(m, i, one)
                    ctx.eq('element %d' % i, v[i], w, scale=abs(a) + abs(b) if ctx.native else 1)
    with ctx.when(('>=', a, b)) as ok:
        if ok:
            ctx.true('an empty range gives an empty vector', size == 0)
    if mode == 1:
        with ctx.when(('<=', a, zero)) as ok:
            if ok:
                ctx.true('no logarithmic spacing from zero or below', size == 0)


def bound(ctx):
    n, i, x = ctx.cfg['n'], ctx.iout('i')[0], ctx.sym('x')
    ctx.true('within the array', 0 <= i <= n)
    if i < n:
        ctx.lt('the element found is greater', x, ctx.sym('c', i), exact=True)
    if i > 0:
        ctx.le('the element before is not', ctx.sym('c', i - 1), x, exact=True)


def poisson(ctx):
    n, l, u = ctx.iout('k')[0], ctx.sym('lam'), ctx.sym('u')
    e = ctx.fun('exp', -l)

    def cum(j):
        s = t = k(ctx, 1)
        for i in range(1, j + 1):
            t = t * l * k(ctx, Q(1, i))
            s = s + t
        return e * s
    ctx.true('a count', 0 <= n < 120)
    ctx.le('draw within the cumulative distribution at k', u, cum(n))
    if n:
        ctx.lt('draw above the cumulative distribution at k-1', cum(n - 1), u)


def order(n):
    def pre(w):
        return [T.rel('<=', T.var('c[%d]' % i, -100, 100), T.var('c[%d]' % (i + 1), -100, 100)) for i in range(n - 1)]
    return pre


cases = []
TH = TIER == 'thorough'
for t, p in P.items():
    sg = t.endswith('f')
    nm = 'single' if sg else 'double'
    nt = 1e-4 if sg else 1e-9
    for n in (0, 1, 2, 3, 4, 7, 12) + ((30, 64) if TH else ()):
        cases.append(Case('linear spacing %s, %d values' % (nm, n), p, dict(mode=0, n=n), dict(a=(-100, 100), b=(-100, 100)), spaced, ntol=nt, bounds='all end points in [-100,100]'))
    for n in (0, 1, 2, 3, 4, 5, 7, 9) + ((13, 17) if TH else ()):
        cases.append(Case('logarithmic spacing %s, %d values' % (nm, n), p, dict(mode=1, n=n), dict(a=(-1, 10), b=(-1, 100)), spaced, ntol=nt, bounds='all end points'))
    for n in (6, 7, 8, 9, 14):
        cases.append(Case('log-lin-log spacing %s, %d values' % (nm, n), p, dict(mode=2, n=n), dict(a=(Q(1, 100), Q(1, 2)), b=(Q(10), 1000)), spaced, ntol=nt, bounds='all end points with min < max/10'))
    for n in range(0, 8 if not TH else 13):
        cases.append(Case('upper bound %s, %d values' % (nm, n), p, dict(mode=3, n=n), dict(c=lambda i: (-100, 100), x=(-100, 100)), bound, pre=order(n), bounds='all sorted arrays, equal elements included'))
    F99 = Q(999, 1000)
    for lo, hi, um in ((Q(0), Q(0), Q(1)), (Q(1, 1000), Q(1, 100), F99), (Q(1, 8), Q(1, 4), Q(9, 10)), (Q(1, 4), Q(1, 4), F99), (Q(1), Q(1), F99), (Q(5, 2), Q(5, 2), F99), (Q(6), Q(6), F99), (Q(12), Q(12), F99), (Q(45), Q(45), Q(99, 100))) + \
            (((Q(20), Q(20), F99), (Q(1, 3), Q(1, 3), 1 - Q(1, 10**6))) if TH else ()):
        cases.append(Case('poisson %s, mean %s to %s' % (nm, lo, hi), p, dict(mode=4, n=0), dict(lam=(lo, hi) if lo != hi else lo, u=(0, um)), poisson, ntol=nt, budget=120, bounds='means %s to %s, all draws up to %s' % (lo, hi, um)))
main('Q12', cases, outside='vectors above 64 values; log spacings with other than 2^a 3^b intervals; Poisson means other than the listed ones up to 45, and means so large that exp(-mean) underflows and draws close to 1; rounding')
