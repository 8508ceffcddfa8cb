"""Q11: Schwinger pair production: rate from the field invariants, single and multiple pair draws, engine object."""
import os, sys, math
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction as Q
from symx import terms as T, qed
from symx.qed import V3, k
from symx.harness import Case, main, TIER

qed.coef('sw')
P = qed.progs('q11', 'q11.cpp')


def rates(ctx, u):
    """(label, rate per volume and time) in the cases of the field invariants"""
    E, B = V3(*[ctx.sym('v', i) for i in range(3)]), V3(*[ctx.sym('v', i) for i in range(3, 6)])
    lam = k(ctx, 1) if u.si else ctx.sym('lam')
    zero, pi = k(ctx, 0), k(ctx, qed.PI)
    es = k(ctx, u.Es) * lam
    c = k(ctx, u.c)
    F = (E.n2() - B.n2() * (c * c)) / (k(ctx, 2) * es * es)
    G = E.dot(B) * c / (es * es)
    s = ctx.sqrt(F * F + G * G)
    ep, et = ctx.sqrt(s + F), ctx.sqrt(s - F)
    co = k(ctx, u.sw) * lam * lam * lam * lam
    with ctx.when(('==', ep, zero)) as ok:
        if ok:
            yield 'no electric frame', zero
    with ctx.when(('>', ep, zero), ('==', et, zero)) as ok:
        if ok:
            yield 'purely electric frame', co * ep * ep * ctx.fun('exp', -(pi / ep)) / pi
    with ctx.when(('>', ep, zero), ('>', et, zero)) as ok:
        if ok:
            yield 'general', co * ep * et * ctx.fun('exp', -(pi / ep)) / ctx.fun('tanh', pi * et / ep)


def spec(u):
    def f(ctx):
        c = ctx.cfg
        mode = c['mode']
        if mode in (0, 3):
            for lab, r in rates(ctx, u):
                ctx.eq('rate, ' + lab, ctx.out('rate')[0], r, scale=abs(r) if ctx.native else 1)
        if mode >= 3:
            ctx.eq('wavelength', ctx.out('lambda')[0], k(ctx, 1) if u.si else ctx.sym('lam'))
        if mode >= 4:
            rg = ctx.out('range')
            n = 3 if mode == 4 else 1
            ctx.true('number of draws', len(rg) == 2 * n)
            for i in range(n):
                ctx.eq('draw from 0', rg[2 * i], k(ctx, 0))
                ctx.eq('draw to 1', rg[2 * i + 1], k(ctx, 1))
        if mode == 4:
            for i in range(3):
                ctx.eq('position %d' % i, ctx.out('pos')[i], ctx.sym('u', i))
        if mode in (1, 2, 5, 6):
            V = ctx.sym('d', 0) * ctx.sym('d', 1) * ctx.sym('d', 2)
            ctx.eq('weight', ctx.out('w')[0] * V, k(ctx, 1))
            n, dr = ctx.iout('n')[0], ctx.sym('u', 0)
            for lab, r in rates(ctx, u):
                p = r * V * ctx.sym('d', 3)
                if mode in (1, 5):
                    if n:
                        ctx.lt('a pair only below the probability, ' + lab, dr, p)
                    else:
                        ctx.le('no pair only above the probability, ' + lab, p, dr)
                    ctx.true('one pair at most', n in (0, 1))
                else:
                    # Poisson: cumulative(n-1) < draw <= cumulative(n)
                    e = ctx.fun('exp', -p)
                    cum = lambda j: e * sum((ppow(ctx, p, i) * k(ctx, Q(1, math.factorial(i))) for i in range(1, j + 1)), k(ctx, 1))
                    ctx.true('a number of pairs', 0 <= n < 30)
                    if 0 <= n < 30:
                        ctx.le('draw within the cumulative of n pairs, ' + lab, dr, cum(n))
                        if n:
                            ctx.lt('draw above the cumulative of fewer pairs, ' + lab, cum(n - 1), dr)
    return f


def ppow(ctx, p, i):
    r = p
    for _ in range(i - 1):
        r = r * p
    return r


cases = []
TH = TIER == 'thorough'
# field directions: general, crossed with E > cB (purely electric frame), crossed with E < cB (none), parallel, E only, B only
DIR = [('generic', (1, -2, 3), (-2, 1, 5)), ('generic 2', (3, 2, -1), (Q(1, 2), -1, Q(1, 4))), ('crossed electric', (2, 2, 1), (Q(1, 3), Q(-2, 3), Q(2, 3))), ('crossed magnetic', (2, 1, -2), (3, -6, 0)),
       ('parallel', (2, 3, 6), (1, Q(3, 2), 3)), ('electric', (1, -2, 2), (0, 0, 0)), ('magnetic', (0, 0, 0), (1, 2, -2)), ('no field', (0, 0, 0), (0, 0, 0)), ('antiparallel', (2, 0, 1), (-4, 0, -2)),
       ('null', (3, 4, 0), (0, 0, 5))]
for t, p in P.items():
    u = qed.of(t)
    sg = t.endswith('f')
    nm = '%s, %s' % (u.tag, 'single' if sg else 'double')
    nt = 2e-3 if sg else 1e-7
    es = u.Es
    lam = (Q(1, 2), 2) if u.si else (Q(1, 10**7), Q(1, 10**5))
    lsc = Q(1) if u.si else Q(1, 10**6)
    # in SI units and single precision the rate overflows for stronger fields
    weak = t == 'sif'
    Fv = Fg = T.var('F' + t, es * lsc / 50, es * lsc)

    def vec(F, de, db, u=u):
        return lambda i: T.mul(F, Q(de[i])) if i < 3 else T.mul(F, Q(db[i - 3]) / u.c)

    for dn, de, db in DIR:
        if sg and dn in ('generic 2', 'antiparallel'):
            continue
        if sg and 'crossed' in dn or sg and dn == 'null':
            continue    # in single precision rounding decides between the frames
        if weak:
            ff, gg = float(sum(x * x for x in de) - sum(x * x for x in db)) / 2, float(sum(x * y for x, y in zip(de, db)))
            ep = math.sqrt(math.hypot(ff, gg) + ff) or 1.0
            # the exponential underflows for weaker fields
            Fv = T.var('F' + t + dn, es * Q(0.04 / ep), es * Q(0.07 / ep))
            if dn == 'generic':
                Fg = Fv
        cases.append(Case('rate %s, %s fields' % (nm, dn), p, dict(mode=0, how=0), dict(v=vec(Fv, de, db), lam=lam), spec(u), ntol=nt, div0='report',
                          bounds='fields of all amplitudes along fixed directions, all wavelengths'))
    if not sg:
        Bv = T.var('B' + t, es * lsc / 50 / u.c, es * lsc / u.c)
        for dn, de, db in DIR[:1] + ([DIR[1], DIR[4]] if TH else []):
            cases.append(Case('rate %s, %s fields, independent amplitudes' % (nm, dn), p, dict(mode=0, how=0),
                              dict(v=lambda i, de=de, db=db, Fv=Fv, Bv=Bv: T.mul(Fv, Q(de[i])) if i < 3 else T.mul(Bv, Q(db[i - 3])), lam=lam if u.si else lsc), spec(u), ntol=nt, timeout=8000,
                              bounds='E and B of all amplitudes along fixed directions'))
    # a volume and a step that make the probability of order one
    x = Q(1, 32) if weak else Q(1, 2)
    Fc = es * lsc * x
    lc = Q(1) if u.si else lsc
    sw = float(u.sw) * float(lc) ** 4
    e2, b2, eb = 1 + 4 + 9, 4 + 1 + 25, -2 - 2 + 15
    ff, gg = (e2 - b2) / 2 * float(x * x), eb * float(x * x)
    s = math.hypot(ff, gg)
    ep, et = math.sqrt(s + ff), math.sqrt(s - ff)
    r0 = sw * ep * et * math.exp(-math.pi / ep) / math.tanh(math.pi * et / ep)
    L = Q(2.0 ** round(math.log2(r0) / -4))
    p0 = r0 * float(L) ** 4

    def dd(lo, hi, L=L, p0=p0):
        # sides L/2, L, 2L; the step makes the probability vary between lo and hi
        return lambda i: (L / 2, L, 2 * L)[i] if i < 3 else (L * Q(lo / p0).limit_denominator(1000), L * Q(hi / p0).limit_denominator(1000))if hi > lo else L * Q(lo / p0).limit_denominator(1000)

    gv = vec(Fc, *DIR[0][1:])
    for mode, how in ((1, 0), (5, 0), (5, 1), (5, 2), (5, 3)):
        cases.append(Case('single pair %s, %s' % (nm, 'static' if mode == 1 else 'engine %d' % how), p, dict(mode=mode, how=how), dict(v=gv, lam=lc, d=dd(0.02, 1.5), u=lambda i: (0, 1)), spec(u), ntol=nt,
                          bounds='all draws, probabilities 0.02 to 1.5'))
    for mode, how in ((2, 0), (6, 0), (6, 1)):
        for lo, hi, um in ((0.05, 0.05, 1), (0.1, 0.15, Q(9, 10)), (1.0, 1.0, 1), (2.5, 2.5, 1)) + (((7.0, 7.0, 1), (1.0, 1.1, Q(3, 4))) if TH else ()):
            cases.append(Case('multiple pairs %s, %s, mean %s' % (nm, 'static' if mode == 2 else 'engine %d' % how, lo), p, dict(mode=mode, how=how),
                              dict(v=gv, lam=lc, d=dd(lo, hi), u=lambda i, um=um: (0, um - Q(1, 100))), spec(u), ntol=nt,
                              bounds='all draws up to %s, means %s to %s' % (um - Q(1, 100), lo, hi)))
    for how in range(4):
        cases.append(Case('engine rate %s, how %d' % (nm, how), p, dict(mode=3, how=how), dict(v=vec(Fg, *DIR[0][1:]), lam=lam, d=lambda i: Q(1)), spec(u), ntol=nt))
        cases.append(Case('pair position %s, how %d' % (nm, how), p, dict(mode=4, how=how), dict(v=gv, lam=lam, d=lambda i: Q(1), u=lambda i: (0, 1)), spec(u), ntol=nt))
main('Q11', cases, outside='field directions outside the listed set; Poisson means above 2.2 and draws above 90 %; crossed fields in single precision; rounding')
