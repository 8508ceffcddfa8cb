import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import *
from symx.push import *


def spec(ctx):
    c = ctx.cfg
    v = c['variant']
    q, m, dt = ctx.sym('q'), ctx.sym('m'), ctx.sym('dt')
    o = one(ctx)
    k = q * dt / (2 * m)
    for i in range(1, c['np'] + 1):
        u, E, Bf, gi = vec(ctx, 'u', i), vec(ctx, 'e', i), vec(ctx, 'b', i), ctx.sym('gi', i)
        n = [ctx.out('u' + a)[i - 1] for a in AX]
        g = ctx.out('gi')[i - 1]
        S = 1e9
        unchanged(ctx, 'ex ey ez bx by bz x y z'.split(), i)
        if v in (1, 5, 17, 7):
            if v == 7:
                um, up, gm = u, n, gi
            else:
                # u- = u + kE ; u+ = u_new - kE ; (u+ - u-) = (u+ + u-) x t , t = k B / gamma(u-)
                um, up = lc((o, u), (k, E)), lc((o, n), (-k, E))
                gm = 1 / gamma(ctx, um)
            t = [k * b * gm for b in Bf]
            r = cross(lc((o, up), (o, um)), t)
            for d in range(3):
                ctx.eq('boris rotation %s(%d)' % (AX[d], i), up[d] - um[d], r[d], scale=S)
            ctx.eq('magnetic rotation keeps |u| (%d)' % i, dot(up, up), dot(um, um), scale=S * S)
            if v == 7:
                ctx.eq('gaminv(%d) untouched' % i, g, gi)
            else:
                ctx.eq('gaminv(%d)' % i, g * gamma(ctx, n), o)
        elif v == 6:
            for d in range(3):
                ctx.eq('E push %s(%d)' % (AX[d], i), n[d] - u[d], 2 * k * E[d], scale=S)
            ctx.eq('gaminv(%d) untouched' % i, g, gi)
        elif v == 8:
            for d in range(3):
                ctx.eq('u%s(%d) untouched' % (AX[d], i), n[d], u[d])
            ctx.eq('gaminv(%d)' % i, g * gamma(ctx, u), o)
        elif v == 10:
            w = lc((o, u), (k, E), (k, cross([gi * a for a in u], Bf)))
            for d in range(3):
                ctx.eq('first half %s(%d)' % (AX[d], i), n[d], w[d], scale=S)
            ctx.eq('gaminv(%d)' % i, g * gamma(ctx, w), o)
        elif v in (9, 11, 16):
            # u_new = u + dt q/m (E + (v_old + v_new)/2 x B), v_new = u_new/gamma_new with the returned 1/gamma
            if v == 9:
                w = lc((o, u), (2 * k, E), (k, cross([gi * a for a in u], Bf)))
            elif v == 11:
                w = lc((o, u), (k, E))
            else:
                w = lc((o, u), (2 * k, E), (k, cross([gi * a for a in u], Bf)))
            r = cross([g * a for a in n], Bf)
            for d in range(3):
                ctx.eq('vay implicit equation %s(%d)' % (AX[d], i), n[d], w[d] + k * r[d], scale=S)
            # (1/gamma)^2 is the positive root of the paper's quadratic, which makes it 1/sqrt(1+u^2/c^2):
            # gamma^4 - gamma^2 sigma - (tau^2 + (w.tau)^2/c^2) = 0
            tau = [k * b for b in Bf]
            t2, ws = dot(tau, tau), dot(w, tau) * (o / CL)
            sg = 1 + dot(w, w) * (o / CL ** 2) - t2
            ctx.eq('gamma quartic (%d)' % i, sg * g * g + (t2 + ws * ws) * g * g * g * g, o)
            ctx.le('gamma positive (%d)' % i, 0, g)
            if True:
                ctx.eq('gaminv(%d)' % i, g * g * (1 + dot(n, n) * (o / CL ** 2)), o)


U, E3, B3 = 'ux uy uz'.split(), 'ex ey ez'.split(), 'bx by bz'.split()
K = ['q', 'm', 'dt']
cases = []
for v in (1, 5, 17):
    cases += [mk(v, U + E3 + B3, spec=spec), mk(v, U + ['ex', 'by'] + K, spec=spec)]
    for np, at in ((3, 1), (3, 3), (2, 2)):
        cases.append(mk(v, ['ux', 'ey', 'bz', 'bx'], np=np, at=at, spec=spec))
cases += [mk(5, ['ux', 'ey', 'bz'], np=5, at=a, lvect=l, spec=spec) for a, l in ((5, 2), (4, 2), (4, 3), (5, 8), (3, 4))]
for v in (6, 7, 8):
    cases += [mk(v, U + E3 + B3 + ['gi'] + K, spec=spec), mk(v, ['ux', 'ey', 'bz', 'gi'], np=3, at=3, spec=spec), mk(v, ['uy', 'ex', 'bx', 'gi'], np=2, at=1, spec=spec)]
for v in (9, 10, 11):
    cases += [mk(v, U + E3 + B3 + ['gi'], spec=spec), mk(v, U + ['ey', 'bz', 'gi'] + K, spec=spec), mk(v, ['ux', 'ey', 'bz', 'bx', 'gi'], np=3, at=3, spec=spec), mk(v, ['uy', 'ex', 'by', 'gi'], np=2, at=1, spec=spec)]
cases += [mk(16, ['ux', 'uz', 'ey', 'bz', 'gi'], spec=spec), mk(16, ['uy', 'ex', 'bx', 'by', 'gi'], np=2, at=2, spec=spec)]
if __name__ == '__main__':
    main('C06', cases,
         assumptions=['floating point is read as exact real arithmetic; doubles that are the rounding of a small rational times powers of c and pi are read as that constant', '|u| < 9e8 m/s, |E| < 1e12 V/m, |B| < 4000 T per component, dt in [0.1,4]e-16 s, q and m near the electron values'],
         outside='more than 5 particles, rounding')
