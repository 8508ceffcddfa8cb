"""Q08: Breit-Wheeler optical depth: exponential draw, pair production rate (tabulated and asymptotic), event determination."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction as Q
from symx import terms as T, qed
from symx.qed import V3, k, EA, EB, G13
from symx.harness import Case, main, TIER

qed.coef('bw')
P = qed.progs('q08', 'q08.cpp')


def rates(ctx, u, energy, chi, lam):
    """(label, pair production rate): asymptotic forms at and beyond the ends of the table, table between"""
    c = ctx.cfg
    n = c['n']
    tmin, tmax = k(ctx, c['tmin']), k(ctx, c['tmax'])
    co = k(ctx, u.bw) / (energy * chi)
    if not u.si:
        co = co * lam
    with ctx.when(('<=', chi, tmin)) as ok:
        if ok:
            yield 'small chi', co * k(ctx, qed.PI * EA / (2 * EB)) * chi * chi * ctx.fun('exp', k(ctx, -2 * EB) / chi)
    with ctx.when(('>=', chi, tmax)) as ok:
        if ok:
            yield 'large chi', co * k(ctx, EA * G13 / 2) * chi * ctx.pow(chi * k(ctx, 2 / EB), Q(2, 3))
    with ctx.when(('>', chi, tmin), ('<', chi, tmax)) as ok:
        if ok:
            lmin, lmax = ctx.fun('log', tmin), ctx.fun('log', tmax)
            for lab, v in qed.segments(ctx, n, lmin, lmax, lambda i: ctx.sym('d', i), ctx.fun('log', chi)):
                yield lab, co * ctx.fun('exp', v)


def tau(ctx):
    ctx.eq('optical depth is -log(1-u)', ctx.out('tau')[0], -ctx.fun('log', k(ctx, 1) - ctx.sym('u')))


def interp(u):
    def f(ctx):
        e, chi, lam = ctx.sym('energy'), ctx.sym('chi'), ctx.sym('lam')
        r = ctx.out('dndt')[0]
        for z in (e, chi):
            with ctx.when(('==', z, k(ctx, 0))) as ok:
                if ok:
                    ctx.eq('no rate without energy or field', r, k(ctx, 0))
        with ctx.when(('!=', e, k(ctx, 0)), ('!=', chi, k(ctx, 0))) as ok:
            if ok:
                for lab, v in rates(ctx, u, e, chi, lam):
                    ctx.eq('rate, ' + lab, r, v, scale=v if ctx.native else 1)
    return f


def evolve(u):
    def f(ctx):
        c = ctx.cfg
        p = V3(*[ctx.sym('v', i) for i in range(3)])
        lam, dt, t0, chi = ctx.sym('lam'), ctx.sym('dt'), ctx.sym('tau'), ctx.out('chi')[0]
        t1, ev, edt = ctx.out('tau')[0], ctx.iout('ev')[0], ctx.out('edt')[0]
        zero = k(ctx, 0)
        E = ctx.sqrt(p.n2()) * k(ctx, u.c)
        E2 = k(ctx, 2 * u.m * u.c ** 2)
        ctx.eq('without a table the optical depth is untouched', ctx.out('taun')[0], t0)
        ctx.eq('without a table no event time', ctx.out('edtn')[0], zero)
        ctx.true('without a table no event', ctx.iout('evn') == [0])
        for what, conds in (('below the chi threshold', [('<=', chi, k(ctx, c['cmin']))]), ('below the pair threshold', [('<', E, E2)])):
            with ctx.when(*conds) as ok:
                if ok:
                    ctx.true(what + ': handled, no event', ctx.iout('ok') == [1] and ev == 0 and ctx.iout('okn') == [1])
                    ctx.eq(what + ' the optical depth is untouched', t1, t0)
                    ctx.eq(what + ' no event time', edt, zero)
        with ctx.when(('>', chi, k(ctx, c['cmin'])), ('>=', E, E2)) as ok:
            if ok:
                ctx.true('above the thresholds: handled with a table only', ctx.iout('ok') == [1] and ctx.iout('okn') == [0])
                for lab, v in rates(ctx, u, E, chi, lam):
                    ctx.eq('optical depth decreases by rate*dt, ' + lab, t1, t0 - v * dt, scale=abs(t0) + v * dt if ctx.native else 1)
                    if ev:
                        ctx.eq('event when the optical depth reaches zero, ' + lab, edt * v, t0, scale=v * dt if ctx.native else 1)
                if ev:
                    ctx.lt('event only if the optical depth is negative', t1, zero)
                    ctx.le('the event lies inside the step', edt, dt)
                    ctx.le('the event time is not negative', zero, edt)
                else:
                    ctx.le('no event while the optical depth is positive', zero, t1)
                    ctx.eq('no event, no event time', edt, zero)
    return f


cases = []
TH = TIER == 'thorough'
CT = dict(cmin=Q(1, 256), tmin=Q(1, 64), tmax=Q(128))
for t, p in P.items():
    u = qed.of(t)
    sg = t.endswith('f')
    nm = '%s, %s' % (u.tag, 'single' if sg else 'double')
    nt = 1e-3 if sg else 1e-6
    R = dict(ntol=nt, timeout=4000)
    cases.append(Case('draw ' + nm, p, dict(mode=0, n=2, **CT), dict(u=(0, Q(4095, 4096))), tau, bounds='u in [0, 4095/4096]', **R))
    dlam = (Q(1, 10**8), Q(1, 100)) if not u.si else (Q(1, 2), 2)
    en = (u.m * u.c ** 2, u.m * u.c ** 2 * 10 ** 4)
    for n in (2, 4) + ((8,) if TH else ()):
        cases.append(Case('rate %s, %d nodes' % (nm, n), p, dict(mode=1, n=n, **CT), dict(energy=en, chi=(0, 300), lam=dlam, d=lambda i: (-8, 8)), interp(u), div0='report',
                          bounds='every chi in [0,300], energies 1 to 1e4 m c^2, all table data in [-8,8]', **R))
    cases.append(Case('rate %s, zero energy' % nm, p, dict(mode=1, n=2, **CT), dict(energy=Q(0), chi=(0, 300), lam=dlam, d=lambda i: (-8, 8)), interp(u), **R))
    if t == 'sif':
        continue    # the square of a momentum in kg m/s underflows in single precision
    # momentum, E and B along fixed directions without symmetry: either the field amplitude or the momentum is free
    dirs = [((Q(2, 7), Q(3, 7), Q(6, 7)), (Q(1), Q(-2), Q(3)), (Q(-2), Q(1), Q(5)))]
    if TH:
        dirs.append(((Q(-6, 7), Q(2, 7), Q(-3, 7)), (Q(3), Q(1), Q(-2)), (Q(1), Q(4), Q(-1))))
    pm = u.m * u.c
    es = u.Es / 100
    for j, (dp, de, db) in enumerate(dirs):
        def vec(P, F, dp=dp, de=de, db=db, u=u, E=1):
            return lambda i: T.mul(P, dp[i]) if i < 3 else T.mul(F, E * de[i - 3]) if i < 6 else T.mul(F, db[i - 6] / u.c)

        Fv, Pv = T.mul(T.var('F' + t, Q(0), Q(1)), es), T.var('P' + t, pm / 2, pm * 1000)
        runs = [('momentum %s, any field' % x, vec(Q(x) * pm, Fv), n) for x, n in ((Q(3, 2), 2), (60, 3), (1000, 4)) + (((200, 8),) if TH else ())]
        runs += [('any momentum, field %s' % x, vec(Pv, es * Q(x), E=0), n) for x, n in ((Q(1, 8), 2),) + (((Q(1, 2), 3),) if TH else ())]
        for nn, vv, n in runs:
            cases.append(Case('evolve %s, direction %d, %s, %d nodes' % (nm, j, nn, n), p, dict(mode=2, n=n, **CT),
                              dict(v=vv, lam=dlam if u.si else Q(3, 4), d=lambda i: (-8, 8), dt=(0, 1), tau=(0, 8)), evolve(u),
                              bounds='momenta 1/2 to 1000 m c or fields of all amplitudes along fixed generic directions, all table data in [-8,8], optical depths up to 8', **R))
main('Q08', cases, outside='the step in SI units in single precision (squares of momenta underflow); tables above %d nodes, chi above 300; rounding' % (8 if TH else 4))
