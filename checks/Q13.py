"""Q13: Breit-Wheeler engine object: rates and tables as integrals of the pair kernel, copies, moves, innards, files."""
import math, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction as Q
from symx import terms as T, qed, engine, lib
from symx.qed import k, EA, EB, G13
from symx.engine import O, I
from symx.harness import main, TIER

qed.coef('bw')
P = qed.progs('q13', 'q13.cpp', inc=('stubs',), natinc=('stubs',), openmp=True)
EPS = Q(1, 2 ** 20)


class BW(engine.Engine):
    coef, big, pmax, slow = 'bw', Q(10) ** 20, Q(1, 2), Q(3, 2)
    assign = 13,
    gen = [('el', 'rel'), ('po', 'rpo')]
    genin = {}

    @staticmethod
    def tdrange(i):
        """columns: probability 0 (its logarithm is hugely negative), something between, 1/2"""
        return (Q(-60), (-8, -1), T.back(-0.6931471805599453))[i % 3]

    @staticmethod
    def urange(i):
        return (Q(1, 2) + EPS, 1 - EPS) if i % 2 else (EPS, Q(1, 2) - EPS)

    def factor(s, ctx, u, en, lam):
        raise NotImplementedError

    def co(s, ctx, u, en, chi, lam):
        r = k(ctx, u.bw) / (en * chi)
        return r if u.si else r * lam

    def total(s, ctx, u, en, chi, lam):
        """rate: coefficient over energy and chi times the integral of the kernel over the electron parameter from 0 to chi"""
        return s.co(ctx, u, en, chi, lam) * s.U(ctx, 0, chi)

    def trate(s, ctx, u, en, chi, lam):
        c = ctx.cfg
        tmin, tmax = k(ctx, c['dmin']), k(ctx, c['dmax'])
        co = s.co(ctx, u, en, chi, lam)
        with ctx.when(('<=', chi, tmin)) as ok:
            if ok:
                yield 'small chi', co * k(ctx, qed.PI * EA / (2 * EB)) * chi * chi * ctx.fun('exp', k(ctx, -2 * EB) / chi)
        with ctx.when(('>=', chi, tmax)) as ok:
            if ok:
                yield 'large chi', co * k(ctx, EA * G13 / 2) * chi * ctx.pow(chi * k(ctx, 2 / EB), Q(2, 3))
        with ctx.when(('>', chi, tmin), ('<', chi, tmax)) as ok:
            if ok:
                for lab, v in qed.segments(ctx, c['dn'], ctx.fun('log', tmin), ctx.fun('log', tmax), lambda i: ctx.sym('dd', i), ctx.fun('log', chi)):
                    yield lab, co * ctx.fun('exp', v)

    def active(s, ctx, u, en, chi):
        return [('>', chi, k(ctx, Q('0.01'))), ('>=', en, k(ctx, 2 * u.m * u.c ** 2))]

    def kernel(s, ctx, chi, x):
        """cases of the kernel at electron parameter x"""
        zero = k(ctx, 0)
        with ctx.when(('==', x, zero)) as ok:
            if ok:
                yield zero
        with ctx.when(('>=', x, chi)) as ok:
            if ok:
                yield zero
        with ctx.when(('>', x, zero), ('<', x, chi)) as ok:
            if ok:
                z = chi / (x * (chi - x))
                y = ctx.pow(z, Q(2, 3))
                y32 = ctx.pow(y, Q(3, 2))
                inner = s.Uinf(ctx, 1) - s.U(ctx, 1, y)
                yield (inner - (k(ctx, 2) - chi * y32) * ctx.fun('vp_k23', k(ctx, Q(2, 3)) * y32)) / k(ctx, qed.PI * qed.SQ3)

    def inner(s, ctx, x):
        with ctx.when(('>=', x, k(ctx, s.big))) as ok:
            if ok:
                yield k(ctx, 0)
        with ctx.when(('<', x, k(ctx, s.big))) as ok:
            if ok:
                yield ctx.sqrt(x) * ctx.fun('vp_k13', k(ctx, Q(2, 3)) * ctx.pow(x, Q(3, 2)))

    def cumcases(s, add, u, t):
        for c2 in (Q(1, 8), Q(50)):
            add('cumulative distribution at %s' % c2, s.cumulative(u), dict(mode=1), chi=(c2 / 1000, c2), chi2=c2, bounds='electron parameters from 1/1000 of that of the photon')
        for n, m in ((2, 3), (3, 4)) + (((3, 9), (5, 3)) if TH else ()):
            add('pair table %dx%d' % (n, m), s.table(u), dict(mode=3, tn=n, np=m, ct=1e-5 if t.endswith('f') else 1e-10), t=lambda i: Q(1, 2) if i == 0 else Q(1), bounds='one table')
            for thr, od in ((2, 1), (2, 2), (3, 1)):
                add('pair table %dx%d, %d threads %s' % (n, m, thr, ('in order', 'in reverse', 'interrupted')[od]), s.table(u), dict(mode=3, tn=n, np=m, ct=1e-5 if t.endswith('f') else 1e-10, thr=thr, ord=od),
                    t=lambda i: Q(1, 2) if i == 0 else Q(1), bounds='one table; every point of interruption between integrals')

    def table(s, u):
        def f(ctx):
            c = ctx.cfg
            n, m = c['tn'], c['np']
            s.shown(ctx, u, 't')
            g = O(ctx, 'td')
            if len(g) != n * m:
                return
            L = s.logspace(ctx, c['tmin'], c['tmax'], n)
            for j in range(m):
                ctx.eq('fraction of column %d' % j, O(ctx, 'tp')[j], k(ctx, Q(j, 2 * (m - 1))))
            for i in range(n):
                ctx.eq('coordinate %d is the log of the parameter' % i, O(ctx, 'tc')[i], L[i], **s.tol(ctx))
                chi = k(ctx, s.nodes(c['tmin'], c['tmax'], n)[i])
                ctx.true('first column: probability zero', g[i * m] == -math.inf)
                for j in range(1, m - 1):
                    w = s.U(ctx, 0, chi * k(ctx, Q(j, 2 * (m - 1)))) / s.U(ctx, 0, chi)
                    ctx.eq('entry %d,%d is the log of the cumulative distribution' % (i, j), g[i * m + j], ctx.fun('log', w), **s.tol(ctx))
                ctx.eq('last column: one half', g[i * m + m - 1], ctx.fun('log', k(ctx, Q(1, 2))), **s.tol(ctx))
        return f


TH = TIER == 'thorough'
if __name__ == '__main__':
    main('Q13', engine.cases(BW(), P), assumptions='boost quadrature is additive over intervals and evaluates its integrand; Bessel functions uninterpreted',
         outside='accuracy of the Boost quadrature; tables above 5x3 and 3x9 nodes; rounding')
