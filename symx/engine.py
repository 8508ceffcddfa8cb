"""Specification and cases shared by the two engine classes (Q10: quantum synchrotron, Q13: Breit-Wheeler).

Numerical quadrature and root search belong to Boost and are replaced by stand-ins (glue/stubs): the integral over [a,b] at nesting depth d is
U(b)-U(a), U = (d+1) log(1+x), U(inf) = 100 (d+1), and one sample of each integrand at a symbolic point is recorded and must be the kernel."""
from fractions import Fraction as Q
from . import terms as T, qed
from .qed import V3, k
from .harness import Case, TIER

TH = TIER == 'thorough'



def O(ctx, name):
    return ctx.out(name) if ctx.has(name) else []


def I(ctx, name):
    return ctx.iout(name) if ctx.has(name) else []


class Engine:
    assign = ()
    def U(s, ctx, d, x):
        return k(ctx, d + 1) * ctx.fun('log', k(ctx, 1) + x)

    def Uinf(s, ctx, d):
        return k(ctx, 100 * (d + 1))

    def tol(s, ctx):
        return dict(tol=ctx.cfg['ct']) if 'ct' in ctx.cfg else {}

    # ---- parts of the specification

    def integrands(s, ctx, chis):
        """every recorded sample is the kernel at that point; chis: outer arguments, in the order of the samples"""
        ctx.true('known Bessel functions', I(ctx, 'unknown order') == [])
        q0, q1 = O(ctx, 'q0'), O(ctx, 'q1')
        ctx.true('no third nesting level', not len(O(ctx, 'q2')))
        for i in range(len(q0) // 2):
            chi = chis(i) if callable(chis) else chis
            for v in s.kernel(ctx, chi, q0[2 * i]):
                ctx.eq('kernel', q0[2 * i + 1], v, scale=abs(v) + 1e-3 if ctx.native else 1)
        for i in range(len(q1) // 2):
            for v in s.inner(ctx, q1[2 * i]):
                ctx.eq('inner integrand', q1[2 * i + 1], v, scale=abs(v) + 1e-3 if ctx.native else 1)

    def factor(s, ctx, u, en, lam):
        r = k(ctx, getattr(u, s.coef)) / en
        return r if u.si else r * lam

    def lam(s, ctx, u):
        return k(ctx, 1) if u.si else ctx.sym('lam')

    def shownlam(s, ctx, u):
        w = s.lam(ctx, u)
        for x in O(ctx, 'lam'):
            ctx.eq('wavelength of the engine', x, w)

    def compute(s, u):
        """rate without tables"""
        def f(ctx):
            en, chi = ctx.sym('en'), ctx.sym('chi')
            r = O(ctx, 'rate')[0]
            s.shownlam(ctx, u)
            zero = k(ctx, 0)
            for z in (en, chi):
                with ctx.when(('==', z, zero)) as ok:
                    if ok:
                        ctx.eq('no rate without energy or field', r, zero)
            with ctx.when(('!=', en, zero), ('!=', chi, zero)) as ok:
                if ok:
                    w = s.total(ctx, u, en, chi, s.lam(ctx, u))
                    ctx.eq('rate is the integral of the kernel', r, w, scale=w if ctx.native else 1)
                    s.integrands(ctx, chi)
        return f

    def cumulative(s, u):
        def f(ctx):
            a, b = ctx.sym('chi'), ctx.sym('chi2')
            s.integrands(ctx, b)
            w = s.U(ctx, 0, a) / s.U(ctx, 0, b)
            c = O(ctx, 'cum')[0]
            with ctx.when(('<', a, b)) as ok:
                if ok:
                    ctx.eq('cumulative distribution', c, w)
            with ctx.when(('>=', a, b)) as ok:
                if ok:
                    ctx.eq('cumulative distribution ends at one', c, k(ctx, 1))
        return f

    def nodes(s, lo, hi, n):
        """logarithmically spaced nodes (between powers of 4 the numbers of nodes in use give exact ones)"""
        r = {2: Q(hi) / lo, 3: T.qsqrt(Q(hi) / lo), 5: T.qsqrt(T.qsqrt(Q(hi) / lo)), 9: T.qsqrt(T.qsqrt(T.qsqrt(Q(hi) / lo)))}[n]
        return [lo * r ** i for i in range(n)]

    def logspace(s, ctx, lo, hi, n):
        l0, l1 = ctx.fun('log', k(ctx, lo)), ctx.fun('log', k(ctx, hi))
        return [l0 + (l1 - l0) * k(ctx, Q(i, n - 1)) for i in range(n)]

    def shown(s, ctx, u, names):
        """tables, control and wavelength as seen through the innards; names: which tables exist"""
        c = ctx.cfg
        n = [c['dn'] if 'd' in names else 0] * 2 + ([c['tn'], c['np'], c['tn'] * c['np']] if 't' in names else [0] * 3)
        ctx.true('sizes of the tables', I(ctx, 'sizes') == n)
        ctx.eq('wavelength', O(ctx, 'lambda')[0], s.lam(ctx, u) if not c['tab'] else ctx.sym('lam'))
        w = [Q('0.01'), c['dmin'], c['dmax'], c['tmin'], c['tmax']]
        for x, y in zip(O(ctx, 'ctrl'), w):
            ctx.eq('control parameter', x, k(ctx, y))
        ctx.true('control sizes', I(ctx, 'ctrln') == [c['dn'], c['tn'], c['np']])

    def dtable(s, u):
        def f(ctx):
            c = ctx.cfg
            s.shown(ctx, u, 'd')
            n = c['dn']
            if len(O(ctx, 'dc')) != n:
                return
            L = s.logspace(ctx, c['dmin'], c['dmax'], n)
            for i in range(n):
                ctx.eq('coordinate %d is the log of the parameter' % i, O(ctx, 'dc')[i], L[i], **s.tol(ctx))
                chi = k(ctx, s.nodes(c['dmin'], c['dmax'], n)[i])
                ctx.eq('value %d is the log of the integral' % i, O(ctx, 'dd')[i], ctx.fun('log', s.U(ctx, 0, chi)), **s.tol(ctx))
        return f

    def rows(s, ctx, n):
        """rows of the team's threads (contiguous, the first ones larger)"""
        t = ctx.cfg['thr']
        r, a = [], 0
        for i in range(t):
            m = n // t + (i < n % t)
            r.append(list(range(a, a + m)))
            a += m
        return r

    # ---- engines with given tables

    def trate(s, ctx, u, en, chi, lam):
        raise NotImplementedError

    def stored(s, ctx):
        c = ctx.cfg
        n, np, tn = c['dn'], c['np'], c['tn']
        for name, w in (('dc', s.logspace(ctx, c['dmin'], c['dmax'], n)), ('tc', s.logspace(ctx, c['tmin'], c['tmax'], tn)), ('tp', [k(ctx, Q(i, np - 1) * Q(c['pmax'])) for i in range(np)]),
                        ('dd', [ctx.sym('dd', i) for i in range(n)]), ('td', [ctx.sym('td', i) for i in range(tn * np)])):
            g = O(ctx, name)
            ctx.true('%s: size' % name, len(g) == len(w))
            for i, (x, y) in enumerate(zip(g, w)):
                ctx.eq('%s[%d] is kept' % (name, i), x, y)

    def kept(s, u):
        def f(ctx):
            s.shown(ctx, u, 'dt')
            s.stored(ctx)
        return f

    def interp(s, u):
        def f(ctx):
            en, chi = ctx.sym('en'), ctx.sym('chi')
            r = O(ctx, 'rate')[0]
            for lab, v in s.trate(ctx, u, en, chi, ctx.sym('lam')):
                ctx.eq('rate, ' + lab, r, v, scale=v if ctx.native else 1)
        return f

    def active(s, ctx, u, en, chi):
        """conditions under which a step does something"""
        return [('>', chi, k(ctx, Q('0.01')))]

    def evolve(s, u):
        def f(ctx):
            c = ctx.cfg
            p = V3(*[ctx.sym('v', i) for i in range(3)])
            chi, t0, dt = O(ctx, 'chi')[0], ctx.sym('od'), ctx.sym('dt')
            t1, ev, edt = O(ctx, 'od')[0], I(ctx, 'event')[0], O(ctx, 'evdt')[0]
            en = ctx.sqrt(p.n2()) * k(ctx, u.c)
            zero = k(ctx, 0)
            act = s.active(ctx, u, en, chi)
            for rel, a, b in act:
                with ctx.when(({'>': '<=', '>=': '<'}[rel], a, b)) as ok:
                    if ok:
                        ctx.true('below a threshold: no event', ev == 0)
                        ctx.eq('below a threshold: no event time', edt, zero)
                        ctx.eq('below a threshold: optical depth untouched', t1, t0)
            with ctx.when(*act) as ok:
                if not ok:
                    return
                if c['tab'] and c['how'] not in (11, 12):
                    vals = s.trate(ctx, u, en, chi, ctx.sym('lam'))
                else:
                    vals = [('integral', s.total(ctx, u, en, chi, s.lam(ctx, u)))]
                    s.integrands(ctx, chi)
                for lab, v in vals:
                    ctx.eq('optical depth decreases by rate*dt, ' + lab, t1, t0 - v * dt, scale=abs(t0) + v * dt if ctx.native else 1)
                    if ev:
                        ctx.eq('event when the optical depth reaches zero, ' + lab, edt * v, t0, scale=v * dt if ctx.native else 1)
                if ev:
                    ctx.lt('event only if the optical depth is negative', t1, zero)
                    ctx.le('the event lies inside the step', edt, dt)
                else:
                    ctx.le('no event while the optical depth is positive', zero, t1)
                    ctx.eq('no event, no event time', edt, zero)
        return f

    def draws(s, u):
        def f(ctx):
            if len(O(ctx, 'depth')) != 2 or len(O(ctx, 'expl')) != 2:
                ctx.true('two draws', False)
                return
            base = 3 if ctx.cfg['tab'] else 0
            for i in range(2):
                ctx.eq('optical depth is the exponential draw', O(ctx, 'depth')[i], ctx.sym('u', base + i))
                ctx.eq('of unit rate', O(ctx, 'expl')[i], k(ctx, 1))
        return f

    def generate(s, u):
        def f(ctx):
            ns = ctx.cfg['ns']
            ctx.true('number of particles', I(ctx, 'n') == [ns] * len(s.gen))
            for nm, ref in s.gen:
                for a, b in ((nm, ref), ('w' + nm, 'w' + ref)):
                    x, y = O(ctx, a), O(ctx, b)
                    ctx.true('size of ' + a, len(x) == len(y) == (3 * ns if a == nm else ns))
                    for i in range(min(len(x), len(y))):
                        ctx.eq('the object generates what the core function does: %s[%d]' % (a, i), x[i], y[i])
            x, y = O(ctx, 'p'), O(ctx, 'rp')
            ctx.true('momenta', len(x) == len(y))
            for i in range(min(len(x), len(y))):
                ctx.eq('momentum after the event', x[i], y[i])
            r = O(ctx, 'range')
            ctx.true('draws', len(r) == 2 * ns)
            for i, x in enumerate(r):
                ctx.eq('draws between 0 and 1', x, k(ctx, i % 2))
        return f


HOW = {0: 'constructed', 2: 'wavelength set', 3: 'copied', 4: 'moved', 5: 'copy of a copy', 6: 'copied and moved', 7: 'innards of innards', 8: 'through files', 9: 'files over old tables', 10: 'from innards', 11: 'missing files', 12: 'truncated files', 13: 'assigned'}


def cases(e, P, spec_t=None):
    out = []
    CT = dict(tab=0, dmin=Q(1, 16), dmax=Q(16), dn=3, tmin=Q(1, 4), tmax=Q(64), tn=2, tn1=0, np=3, pmax=Q(e.pmax), ns=1, mode=0, how=0, thr=1, ord=0)
    for t, p in P.items():
        u = qed.of(t)
        sg = t.endswith('f')
        nm = '%s, %s' % (u.tag, 'single' if sg else 'double')
        R = dict(ntol=1e-3 if sg else 1e-6, timeout=4000)
        lam = (Q(1, 8), 4)
        en = (u.m * u.c ** 2, u.m * u.c ** 2 * 10 ** 4)
        big = {'': (0, 1)}
        inp = dict(pre=(0, 20), lam=lam, en=en, chi=(Q(1, 100), 300), t=lambda i: (Q(1, 100), Q(99, 100)), u=e.urange, v=lambda i: Q(0), dt=(0, 1), od=(0, 8), weight=(Q(1, 8), 1000),
                   dd=lambda i: (-8, 8), td=e.tdrange, rs=lambda i: Q(-1), root=lambda i: (-20, Q(-1, 1000)))

        def add(name, spec, cfg={}, **kw):
            r = dict(R)
            i = dict(inp)
            for a, b in kw.items():
                (r if a in ('timeout', 'ntol', 'bounds', 'div0') else i)[a] = b
            out.append(Case('%s, %s' % (name, nm), p, dict(CT, **cfg), i, spec, **r))
        for how in (0, 2, 3, 4) + e.assign:
            add('rate without tables, ' + HOW[how], e.compute(u), dict(mode=0, how=how), bounds='every chi in [1/100,300], energies 1 to 1e4 m c^2, every sample point')
        add('no field', e.compute(u), dict(mode=0), chi=Q(0))
        add('no energy', e.compute(u), dict(mode=0), en=Q(0))
        for tt in (Q(10) ** 21, Q(10) ** 19):
            add('inner integrand at %.0e' % float(tt), e.compute(u), dict(mode=0), chi=Q(1), t=lambda i, tt=tt: Q(1, 2) if i == 0 else tt)
        for tt in (0, 1):
            # a rule that uses the ends of the interval sees finite values there
            add('rate integrand at end %d' % tt, e.compute(u), dict(mode=0), t=lambda i, tt=tt: Q(tt) if i == 0 else (Q(1, 100), Q(99, 100)))
            add('cumulative integrand at end %d' % tt, e.cumulative(u), dict(mode=1), t=lambda i, tt=tt: Q(tt) if i == 0 else (Q(1, 100), Q(99, 100)), chi=(Q(1, 100), Q(7, 8)), chi2=Q(1))
        e.cumcases(add, u, t)
        for n in (2, 5) + ((9,) if TH else ()):
            add('rate table %d' % n, e.dtable(u), dict(mode=2, dn=n, ct=1e-5 if sg else 1e-10))
        for how in (10, 3, 4, 5, 6, 7, 8, 9) + e.assign:
            tab = dict(tab=1, how=how)
            one = dict(lam=Q(1)) if u.si else {}        # innards come from an engine: in SI units the wavelength is 1
            add('tables ' + HOW[how], e.kept(u), dict(tab, mode=8, tn=3, np=4), **one)
            add('draws, ' + HOW[how], e.draws(u), dict(tab, mode=6), **one)
            add('interpolated rate, ' + HOW[how], e.interp(u), dict(tab, mode=7), **one, bounds='every chi in [1/100,300], all table data in [-8,8]')
        for how in (0, 3, 4) + e.assign:
            add('draws, ' + HOW[how], e.draws(u), dict(mode=6, how=how))
        if t == 'sif':
            continue        # the square of a momentum in kg m/s underflows in single precision
        dp, de, db = (Q(2, 7), Q(3, 7), Q(6, 7)), (Q(1), Q(-2), Q(3)), (Q(-2), Q(1), Q(5))
        pm = u.m * u.c
        es = u.Es / 100
        F = T.mul(T.var('F' + t, Q(0), Q(1)), es)

        def vec(i, u=u, pm=pm, F=F):
            return T.mul(60 * pm, dp[i]) if i < 3 else T.mul(F, de[i - 3]) if i < 6 else T.mul(F, db[i - 6] / u.c)

        def low(i, vec=vec, pm=pm):
            return T.mul(e.slow * pm, dp[i]) if i < 3 else vec(i)
        ll = Q(1) if u.si else Q(3, 4)
        for tab, hows in ((0, (0, 3)), (1, (10, 5, 7, 8, 11, 12))):
            for how in hows:
                add('step %s tables, %s' % ('with' if tab else 'without', HOW[how]), e.evolve(u), dict(mode=4, tab=tab, how=how), v=vec, lam=ll, bounds='every field amplitude along a fixed generic direction, depths to 8')
            add('slow step %s tables' % ('with' if tab else 'without'), e.evolve(u), dict(mode=4, tab=tab, how=10 if tab else 0), v=low, lam=ll)
        G = T.mul(T.var('G' + t, Q(1, 10 ** 6), Q(1)), es)

        def gen(i, vec=vec, u=u, G=G):
            return vec(i) if i < 3 else T.mul(G, de[i - 3]) if i < 6 else T.mul(G, db[i - 6] / u.c)

        for ns, how in ((1, 10), (2, 5), (1, 6), (1, 7), (1, 8)) + (((3, 10),) if TH else ()):
            add('%d generated, %s' % (ns, HOW[how]), e.generate(u), dict(mode=5, tab=1, how=how, ns=ns), v=gen, lam=ll, **e.genin)
    return out
