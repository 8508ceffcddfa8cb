"""Q01: chi parameter of photons and leptons is the invariant |F.p|/(m c E_s), zero at rest."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction as Q
from symx import terms as T, qed
from symx.qed import V3
from symx.harness import Case, main, TIER

P = qed.progs('q01', 'q01.cpp')
R = Q(10) ** 3


def spec(u, lepton, deflam):
    def f(ctx):
        v = [ctx.sym('v', i) for i in range(10)]
        p, E, B = V3(*v[:3]), V3(*v[3:6]), V3(*v[6:9])
        lam = qed.k(ctx, 1) if deflam else v[9]
        r = ctx.out('chi')[0]
        zero = (p.n2() == 0) if ctx.native else rest(ctx, p)
        if zero:
            ctx.eq('chi of a particle at rest is zero', r, qed.k(ctx, 0))
            return
        ctx.le('chi is not negative', qed.k(ctx, 0), r)
        x2 = (qed.chi2_lepton if lepton else qed.chi2_photon)(ctx, u, p, E, B, lam)
        if lepton:
            # |.| in the code only guards rounding: on the branch where the difference is negative chi^2 would be too
            if not ctx.native and neg(ctx, x2):
                x2 = -x2
        ctx.eq('chi squared is the invariant', r * r, x2, scale=abs(x2) if ctx.native else 1)
    return f


def rest(ctx, p):
    return any(c[0] == 'R' and c[1] == '==' and not T.poly(T.sub(c[2], p.n2())) for c in ctx.world.path) or not T.poly(T.lift(p.n2()))


def neg(ctx, x2):
    """the path took the branch on which the radicand is negative"""
    r = ctx.out('chi')[0]
    d = T.clear_denoms(T.poly(T.add(T.mul(r, r), x2)))[0]
    return not d


cases = []
for t, pr in P.items():
    u = qed.of(t)
    ps = u.m * u.c * 1000
    es = u.Es * 10
    for kind in range(4):
        if kind % 2 and t.endswith('f'):
            continue        # the invariant cancels in single precision; the template is the same
        def dom(i, ps=ps, es=es, u=u):
            if i < 3:
                return (-ps, ps)
            if i < 6:
                return (-es, es)
            if i < 9:
                return (-es / u.c, es / u.c)
            return (Q(1, 10**8), Q(1, 100))
        cases.append(Case('%s %s%s, %s' % (['photon', 'lepton'][kind % 2], u.tag, ' units' if not u.si else '', ['double', 'single'][t.endswith('f')] + (', default lambda' if kind > 1 else '')),
                          pr, dict(kind=kind), dict(v=dom), spec(u, kind % 2, kind > 1), timeout=2000, ntol=1e-6 if not t.endswith('f') else 1e-2,
                          bounds='every momentum up to 1000 m c per component, every field up to 10 E_s (normalized: 1e6), wavelengths 1e-8 to 1e-2'))
main('Q01', cases, outside='rounding of floating-point arithmetic; the functions are executed over the reals')
