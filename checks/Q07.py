"""Q07: quantum synchrotron photon emission: tabulated photon energy fraction, collinear photons, momentum and weight conservation."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction as Q
from symx import terms as T, qed
from symx.qed import V3, k
from symx.harness import Case, main, TIER

# single precision in SI units is left out: the square of a momentum in kg m/s underflows
P = qed.progs('q07', 'q07.cpp', ('si', 'nu', 'nuf'))


def fraction(ctx, u, chi, prob):
    """(label, photon fraction)"""
    c = ctx.cfg
    n, np = c['n'], c['np']
    lmin, lmax = ctx.fun('log', k(ctx, c['tmin'])), ctx.fun('log', k(ctx, c['tmax']))
    for j in range(np - 1):
        a, b = k(ctx, Q(j, np - 1)), k(ctx, Q(j + 1, np - 1))
        conds = ([('>=', prob, a)] if j else []) + ([('<', prob, b)] if j < np - 2 else [])
        with ctx.when(*conds) as ok:
            if not ok:
                continue
            for x in qed.clamp(ctx, chi, k(ctx, c['tmin']), k(ctx, c['tmax'])):
                lx = ctx.fun('log', x)
                col = [list(), list()]
                h = (lmax - lmin) * k(ctx, Q(1, n - 1))
                for i in range(n - 1):
                    l = lmin + h * k(ctx, Q(i))
                    cs = ([('>=', lx, l)] if i else []) + ([('<', lx, l + h)] if i < n - 2 else [])
                    with ctx.when(*cs) as ok2:
                        if ok2:
                            D = lambda jj: ctx.sym('d', i * np + jj) + (ctx.sym('d', (i + 1) * np + jj) - ctx.sym('d', i * np + jj)) * (lx - l) / h
                            L, R = ctx.fun('exp', D(j)), ctx.fun('exp', D(j + 1))
                            yield 'probability cell %d, chi segment %d' % (j, i), L + (prob - a) * (R - L) * k(ctx, Q(np - 1))


def spec(u):
    def f(ctx):
        c = ctx.cfg
        ns = c['ns']
        p0 = V3(*[ctx.sym('v', i) for i in range(3)])
        chi = ctx.out('chi')[0]
        p1, w = ctx.out('p'), ctx.out('w')
        g = [ctx.out('g')[3 * s:3 * s + 3] for s in range(ns)]
        W = ctx.sym('weight')
        ctx.true('photons are generated', ctx.iout('ok') == [1])
        for s in range(ns):
            ctx.eq('photon weight', w[s] * k(ctx, ns), W)
        for x in ctx.out('beyond'):
            ctx.eq('nothing written beyond the photons', x, k(ctx, 7))
        pn = ctx.sqrt(p0.n2())
        mc = k(ctx, u.m * u.c)
        gam = ctx.sqrt(p0.n2() / (mc * mc) + k(ctx, 1))
        for d in range(3):
            tot = p1[d]
            for s in range(ns):
                tot = tot + g[s][d] / k(ctx, ns)
            ctx.eq('momentum is conserved, component %d' % d, tot, p0[d], scale=pn)
        for s in range(ns):
            for lab, fr in fraction(ctx, u, chi, ctx.sym('u', s)):
                for d in range(3):
                    # |p_photon| = fraction * (gamma - 1) m c along the direction of the particle
                    ctx.eq('photon %d, component %d, %s' % (s, d, lab), g[s][d] * pn, fr * (gam - k(ctx, 1)) * mc * p0[d], scale=pn * pn)
    return f


cases = []
TH = TIER == 'thorough'
CT = dict(tmin=Q(1, 64), tmax=Q(128))
U1 = Q(4095, 4096)
for t, p in P.items():
    u = qed.of(t)
    sg = t.endswith('f')
    nm = '%s, %s' % (u.tag, 'single' if sg else 'double')
    R = dict(ntol=1e-3 if sg else 1e-6, timeout=4000)
    lam = (Q(1, 10**8), Q(1, 100)) if u.si else Q(3, 4)
    pm, es = u.m * u.c, u.Es / 4
    dirs = [((Q(2, 7), Q(3, 7), Q(6, 7)), (Q(1), Q(-2), Q(3)), (Q(-2), Q(1), Q(5))),
            ((Q(-6, 7), Q(2, 7), Q(-3, 7)), (Q(3), Q(1), Q(-2)), (Q(1), Q(4), Q(-1)))]
    for j, (dp, de, db) in enumerate(dirs):
        def vec(P, F, dp=dp, de=de, db=db, u=u, E=1):
            return lambda i: T.mul(P, dp[i]) if i < 3 else T.mul(F, E * de[i - 3]) if i < 6 else T.mul(F, db[i - 6] / u.c)

        Fv, Pv = T.mul(T.var('F' + t, Q(1, 10**9), Q(1)), es), T.var('P' + t, pm / 8, pm * 1000)
        if j == 0:
            runs = [('momentum 1/2, any field', vec(pm / 2, Fv), 2, 4, 1), ('momentum 60, any field', vec(60 * pm, Fv), 3, 2, 2), ('momentum 60, any field', vec(60 * pm, Fv), 2, 3, 3),
                    ('any momentum, field 1/8', vec(Pv, es / 8, E=0), 2, 2, 1)]
        else:
            runs = [('momentum 1000, any field', vec(1000 * pm, Fv), 4, 3, 1)]
            if TH:
                runs += [('any momentum, field 1/2', vec(Pv, es / 2, E=0), 3, 3, 2), ('momentum 7, any field', vec(7 * pm, Fv), 5, 6, 2), ('momentum 7, any field', vec(7 * pm, Fv), 2, 3, 5)]
        for nn, vv, n, np, ns in runs:
            cases.append(Case('%s, direction %d, %s, table %dx%d, %d photons' % (nm, j, nn, n, np, ns), p, dict(n=n, np=np, ns=ns, **CT),
                              dict(v=vv, lam=lam, d=lambda i: (-8, 0), u=lambda i: (0, U1), weight=(Q(1, 8), 1000)), spec(u),
                              bounds='momenta m c/8 to 1000 m c or fields of all amplitudes along fixed generic directions, all table data in [-8,0], all draws in [0,4095/4096], all weights', **R))
main('Q07', cases, outside='single precision in SI units (squares of momenta underflow); a photon emission with chi = 0 (no event can happen there; the fraction is 0/0); tables above 5x6, more than 5 photons per emission; rounding')
