"""Q09: Breit-Wheeler pair generation: inversion of the tabulated cumulative distribution, energy split, collinear pairs, weights."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction as Q
from symx import terms as T, qed
from symx.qed import V3, k
from symx.harness import Case, main, TIER

# single precision in SI units is left out: the square of a momentum in kg m/s underflows
P = qed.progs('q09', 'q09.cpp', ('si', 'nu', 'nuf'))


def fraction(ctx, chi, prob):
    """(label, fraction of the less energetic particle) for prob in [0, 1/2)"""
    c = ctx.cfg
    n, np = c['n'], c['np']
    lmin, lmax = ctx.fun('log', k(ctx, c['tmin'])), ctx.fun('log', k(ctx, c['tmax']))
    h = (lmax - lmin) * k(ctx, Q(1, n - 1))
    for x in qed.clamp(ctx, chi, k(ctx, c['tmin']), k(ctx, c['tmax'])):
        lx = ctx.fun('log', x)
        for i in range(n - 1):
            l = lmin + h * k(ctx, Q(i))
            cs = ([('>=', lx, l)] if i else []) + ([('<', lx, l + h)] if i < n - 2 else [])
            with ctx.when(*cs) as ok:
                if not ok:
                    continue
                D = [ctx.fun('exp', ctx.sym('d', i * np + j) + (ctx.sym('d', (i + 1) * np + j) - ctx.sym('d', i * np + j)) * (lx - l) / h) for j in range(np)]
                for j in range(np - 1):
                    with ctx.when(('>=', prob, D[j]), ('<', prob, D[j + 1])) as ok2:
                        if ok2:
                            f = k(ctx, Q(j)) + (prob - D[j]) / (D[j + 1] - D[j])
                            yield 'probability cell %d, chi segment %d' % (j, i), f * k(ctx, Q(1, 2 * (np - 1)))


def spec(u):
    def f(ctx):
        c = ctx.cfg
        ns = c['ns']
        p0 = V3(*[ctx.sym('v', i) for i in range(3)])
        chi = ctx.out('chi')[0]
        w = ctx.out('w')
        one, two, half = k(ctx, 1), k(ctx, 2), k(ctx, Q(1, 2))
        ctx.true('pairs are generated', ctx.iout('ok') == [1])
        for s in range(2 * ns):
            ctx.eq('weight', w[s] * k(ctx, ns), ctx.sym('weight'))
        for x in ctx.out('beyond'):
            ctx.eq('nothing written beyond the pairs', x, k(ctx, 7))
        mc = k(ctx, u.m * u.c)
        pn = ctx.sqrt(p0.n2())
        gam = pn / mc
        for s in range(ns):
            g = ctx.out('g')[6 * s:6 * s + 6]
            us = ctx.sym('u', s)
            for inv, conds in ((False, [('<', us, half)]), (True, [('>=', us, half)])):
                with ctx.when(*conds) as ok:
                    if not ok:
                        continue
                    for lab, fr in fraction(ctx, chi, us - half if inv else us):
                        for wh, fe, o in (('electron', one - fr if inv else fr, 0), ('positron', fr if inv else one - fr, 3)):
                            # Lorentz factor 1 + fraction * (photon energy - 2 m c^2)/(m c^2); the two add up to the photon energy
                            ga = one + fe * (gam - two)
                            pr = ctx.sqrt(ga * ga - one) * mc
                            for d in range(3):
                                ctx.eq('%s of pair %d, component %d, %s, %s' % (wh, s, d, lab, 'upper half' if inv else 'lower half'), g[o + d] * pn, pr * p0[d], scale=pn * pn)
    return f


cases = []
TH = TIER == 'thorough'
CT = dict(tmin=Q(1, 64), tmax=Q(128))
EPS = Q(1, 2 ** 20)


def data(np):
    """columns: probability 0 (its logarithm is hugely negative), increasing, 1/2"""
    def f(i):
        j = i % np
        if j == 0:
            return Q(-60)
        if j == np - 1:
            return T.back(-0.6931471805599453)
        return (Q(-8) + Q(7 * (j - 1), np - 2), Q(-8) + Q(7 * (j - 1), np - 2) + Q(6, np - 2))
    return f


for t, p in P.items():
    u = qed.of(t)
    sg = t.endswith('f')
    nm = '%s, %s' % (u.tag, 'single' if sg else 'double')
    R = dict(ntol=1e-3 if sg else 1e-6, timeout=4000)
    lam = (Q(1, 10**8), Q(1, 100)) if u.si else Q(3, 4)
    pm, es = u.m * u.c, u.Es / 4
    dirs = [((Q(2, 7), Q(3, 7), Q(6, 7)), (Q(1), Q(-2), Q(3)), (Q(-2), Q(1), Q(5))),
            ((Q(-6, 7), Q(2, 7), Q(-3, 7)), (Q(3), Q(1), Q(-2)), (Q(1), Q(4), Q(-1)))]
    for j, (dp, de, db) in enumerate(dirs):
        def vec(P, F, dp=dp, de=de, db=db, u=u, E=1):
            return lambda i: T.mul(P, dp[i]) if i < 3 else T.mul(F, E * de[i - 3]) if i < 6 else T.mul(F, db[i - 6] / u.c)

        Fv, Pv = T.mul(T.var('F' + t, Q(1, 10**9), Q(1)), es), T.mul(T.var('P' + t, Q(21, 10), Q(1000)), pm)
        if j == 0:
            runs = [('momentum 3, any field', vec(pm * 3, Fv), 2, 4, 1), ('momentum 60, any field', vec(60 * pm, Fv), 3, 3, 1), ('momentum 60, any field', vec(60 * pm, Fv), 2, 3, 2),
                    ('any momentum, field 1/8', vec(Pv, es / 8, E=0), 2, 3, 1)]
        else:
            runs = [('momentum 1000, any field', vec(1000 * pm, Fv), 4, 3, 1)]
            if TH:
                runs += [('any momentum, field 1/2', vec(Pv, es / 2, E=0), 3, 3, 1), ('momentum 7, any field', vec(7 * pm, Fv), 5, 6, 1), ('momentum 7, any field', vec(7 * pm, Fv), 2, 3, 3)]
        for nn, vv, n, np, ns in runs:
            for half in ((0, 1) if ns == 1 else (2,)):
                if u.si and half == 0 and nn.startswith('any momentum'):
                    continue            # the sign below the square root is not decided with the SI scale factors: covered in normalized units
                ur = (EPS, Q(1, 2) - EPS), (Q(1, 2) + EPS, 1 - EPS)
                cases.append(Case('%s, direction %d, %s, table %dx%d, %d pairs, %s' % (nm, j, nn, n, np, ns, ('lower half', 'upper half', 'mixed')[half]), p, dict(n=n, np=np, ns=ns, **CT),
                                  dict(v=vv, lam=lam, d=data(np), u=lambda i, half=half, ur=ur: ur[half] if half < 2 else ur[(i + 1) % 2], weight=(Q(1, 8), 1000)), spec(u),
                                  bounds='momenta 2 m c to 1000 m c or fields of all amplitudes along fixed generic directions, increasing table rows of any data, draws in (0,1/2) and (1/2,1), all weights', **R))
main('Q09', cases, outside='single precision in SI units (squares of momenta underflow); draws within 1e-6 of 0, 1/2 and 1; tables above 5x6, more than 3 pairs; rounding')
