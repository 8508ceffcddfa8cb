"""Q10: quantum synchrotron engine object: rates and tables as integrals of the emission kernel, copies, moves, innards, files."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction as Q
from symx import terms as T, qed, engine, lib
from symx.qed import k
from symx.engine import O, I
from symx.harness import main, TIER

qed.coef('qs')
P = qed.progs('q10', 'q10.cpp', inc=('stubs',), natinc=('stubs',), openmp=True)


class QS(engine.Engine):
    coef, big, pmax, slow = 'qs', Q(10) ** 20, 1, Q(1, 2)
    gen = [('g', 'rg')]
    genin = {}
    tdrange = staticmethod(lambda i: (-8, 0))
    urange = staticmethod(lambda i: (0, Q(4095, 4096)))

    def total(s, ctx, u, en, chi, lam):
        """rate: coefficient over the energy times the integral of the kernel over photon parameters from 0 to chi"""
        return s.factor(ctx, u, en, lam) * s.U(ctx, 0, chi)

    def trate(s, ctx, u, en, chi, lam):
        c = ctx.cfg
        lmin, lmax = ctx.fun('log', k(ctx, c['dmin'])), ctx.fun('log', k(ctx, c['dmax']))
        for x in qed.clamp(ctx, chi, k(ctx, c['dmin']), k(ctx, c['dmax'])):
            for lab, v in qed.segments(ctx, c['dn'], lmin, lmax, lambda i: ctx.sym('dd', i), ctx.fun('log', x)):
                yield lab, s.factor(ctx, u, en, lam) * ctx.fun('exp', v)

    def kernel(s, ctx, chi, x):
        """cases of the kernel at photon parameter x"""
        zero = k(ctx, 0)
        with ctx.when(('==', x, zero)) as ok:
            if ok:
                yield zero
        with ctx.when(('>=', x, chi)) as ok:
            if ok:
                yield zero
        with ctx.when(('>', x, zero), ('<', x, chi)) as ok:
            if ok:
                y = k(ctx, 2) * x / (k(ctx, 3) * chi * (chi - x))
                inner = s.Uinf(ctx, 1) - s.U(ctx, 1, y)
                yield (inner + k(ctx, Q(3, 2)) * x * y * ctx.fun('vp_k23', y)) / (chi * k(ctx, qed.PI * qed.SQ3))

    def inner(s, ctx, x):
        with ctx.when(('>', x, k(ctx, s.big))) as ok:
            if ok:
                yield k(ctx, 0)
        with ctx.when(('<=', x, k(ctx, s.big))) as ok:
            if ok:
                yield ctx.fun('vp_k53', x)

    def cumcases(s, add, u, t):
        for j, (lo, hi, tt) in enumerate(((Q(1, 1000), Q(99, 100), None), (Q(1), Q(7, 5), Q(1, 3)), (Q(8, 5), Q(3), Q(1, 3)))):
            for c2 in (Q(1, 8), Q(50)):
                kw = dict(t=lambda i, tt=tt: tt) if tt else {}
                add('cumulative distribution at %s, to %s' % (c2, hi), s.cumulative(u), dict(mode=1), chi=(lo * c2, hi * c2), chi2=c2, bounds='photon parameters %s to %s times that of the particle' % (lo, hi), **kw)
        for n, m in ((2, 2), (2, 3)) + (((3, 4),) if TH else ()):
            for r in range(n * m):
                # samples and results of the searches are logarithms of fractions
                y = T.var('Y', Q(1, 20), Q(8, 5))
                z = [T.var('Z%d' % i, Q(1, 10 ** 6), Q(999, 1000)) for i in range(n * m)]
                add('emission table %dx%d, search %d' % (n, m, r), s.table(u), dict(mode=3, tn=n, np=m, ct=1e-5 if t.endswith('f') else 1e-10), rs=lambda i, r=r, y=y: lib.fun('log', y) if i == r else Q(-1),
                    t=lambda i: Q(1, 2) if i == 0 else Q(1), root=lambda i, z=z: lib.fun('log', z[i]), bounds='the searched function at fractions from 1/20 to 8/5, all results of the other searches')
        for n, m, thr, od in ((2, 3, 2, 1), (2, 2, 2, 2), (3, 2, 2, 2), (3, 2, 3, 1)) + (((3, 4, 2, 2),) if TH else ()):
            z = [T.var('Z%d' % i, Q(1, 10 ** 6), Q(999, 1000)) for i in range(n * m)]
            add('emission table %dx%d, %d threads %s' % (n, m, thr, ('in order', 'in reverse', 'interrupted')[od]), s.table(u), dict(mode=3, tn=n, np=m, ct=1e-5 if t.endswith('f') else 1e-10, thr=thr, ord=od),
                pre=(0, 4 * n * m), t=lambda i: Q(1, 2) if i == 0 else Q(1), root=lambda i, z=z: lib.fun('log', z[i]), bounds='all results of the searches; every point of interruption at searches and messages')

    def searches(s, ctx, n, m):
        """number of the search (in the order of time) of every entry"""
        R = [[i * m + j for i in r for j in range(m)] for r in s.rows(ctx, n)]
        o = ctx.cfg['ord']
        if o == 2:
            d = I(ctx, 'done')
            d = d[0] if d else 0
            L = R[0][:d] + R[1] + R[0][d:]
        else:
            L = sum(R[::-1] if o else R, [])
        return {e: i for i, e in enumerate(L)}

    def table(s, u):
        def f(ctx):
            c = ctx.cfg
            n, m = c['tn'], c['np']
            s.shown(ctx, u, 't')
            zero, one = k(ctx, 0), k(ctx, 1)
            if len(O(ctx, 'rf')) != n * m or len(O(ctx, 'td')) != n * m:
                ctx.true('one search per entry', False)
                return
            L = s.logspace(ctx, c['tmin'], c['tmax'], n)
            ctx.true('the searched functions rise', I(ctx, 'rising') == [1] * (n * m))
            for j in range(m):
                ctx.eq('probability of column %d' % j, O(ctx, 'tp')[j], k(ctx, Q(j, m - 1)))
            s.entries(ctx, u, s.searches(ctx, n, m), L)
        return f

    def entries(s, ctx, u, order, L):
        c = ctx.cfg
        n, m = c['tn'], c['np']
        zero, one = k(ctx, 0), k(ctx, 1)
        for i in range(n):
            ctx.eq('coordinate %d is the log of the parameter' % i, O(ctx, 'tc')[i], L[i], **s.tol(ctx))
            chi = k(ctx, s.nodes(c['tmin'], c['tmax'], n)[i])
            for j in range(m):
                # first and last column: a tenth of the first, and of the last, probability step
                pr = Q(1, m - 1) / 10 if j == 0 else 1 - (1 - Q(m - 2, m - 1)) / 10 if j == m - 1 else Q(j, m - 1)
                q, q0 = order[i * m + j], order[i * m + j - 1] if j else None
                x, v = ctx.sym('rs', q), O(ctx, 'rf')[q]
                ctx.eq('entry %d,%d is the log of the fraction found' % (i, j), O(ctx, 'td')[i * m + j], ctx.sym('root', q))
                conds = [('<', x, zero)]
                with ctx.when(('>=', x, zero)) as ok:
                    if ok:
                        ctx.eq('search bounded by the whole energy', v, one)
                if j:
                    with ctx.when(('<', x, ctx.sym('root', q0)), ('<', x, zero)) as ok:
                        if ok:
                            ctx.eq('search bounded by the entry before', v, one)
                    conds.append(('>=', x, ctx.sym('root', q0)))
                # below the bound the fraction is below one; written with both cases for the solver's sake
                num, den = s.U(ctx, 0, ctx.fun('exp', x) * chi), s.U(ctx, 0, chi)
                with ctx.when(*conds, ('<', num, den)) as ok:
                    if ok:
                        ctx.eq('searched function: cumulative distribution minus the probability', v, num / den - k(ctx, pr), **s.tol(ctx))
                with ctx.when(*conds, ('>=', num, den)) as ok:
                    if ok:
                        ctx.eq('searched function ends at one minus the probability', v, one - k(ctx, pr), **s.tol(ctx))


TH = TIER == 'thorough'
if __name__ == '__main__':
    main('Q10', engine.cases(QS(), P), assumptions='boost quadrature is additive over intervals and evaluates its integrand; Bessel functions uninterpreted; root search as its contract',
         outside='accuracy of the Boost quadrature and root search; tables above 3x4 nodes; rounding')
