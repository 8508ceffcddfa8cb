import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import *
from symx.push import *


def spec(ctx):
    c = ctx.cfg
    v = c['variant']
    q, m, dt = ctx.sym('q'), ctx.sym('m'), ctx.sym('dt')
    o = one(ctx)
    k = q * dt / (2 * m)
    ic2 = o / CL ** 2
    pi = math.pi if ctx.native else T.PI
    mu0 = pi * 4 / 10 ** 7
    eps0 = 1 / (mu0 * CL ** 2)
    for i in range(1, c['np'] + 1):
        u, E, Bf = vec(ctx, 'u', i), vec(ctx, 'e', i), vec(ctx, 'b', i)
        n = [ctx.out('u' + a)[i - 1] for a in AX]
        g = ctx.out('gi')[i - 1]
        unchanged(ctx, 'ex ey ez bx by bz x y z'.split(), i)
        uL = boris(ctx, u, E, Bf, k)                                     # Lorentz force alone
        ub = lc((o / 2, u), (o / 2, uL))                                 # centred momentum
        gb = gamma(ctx, ub)
        if v == 2:
            # Sokolov 2009: dv = tau0 (a - v (v.a)/c^2) / (1 + tau0 u.a/(gamma c^2)) with a the Lorentz acceleration;
            # du/dt = a + (q/m) dv x B - gamma (dv.a) u/c^2
            tau0 = mu0 * q * q / (6 * pi * m * CL)
            a = [(p - s) / dt for p, s in zip(uL, u)]
            ua = dot(ub, a)
            den = 1 + tau0 * ua / gb * ic2
            dv = [tau0 * (a[d] - ub[d] * ua / (gb * gb) * ic2) / den for d in range(3)]
            X = cross(dv, Bf)
            w = [u[d] + dt * a[d] + dt * q / m * X[d] - dt * gb * dot(dv, a) * ub[d] * ic2 for d in range(3)]
        elif v == 3:
            # Bulanov 2008: du/dt = a_L - (2 q^4/(3 m^3 c^5 4 pi eps0)) gamma u |E_perp + v x B|^2
            K = 2 * q ** 4 / (3 * m ** 3 * CL ** 5 * 4 * pi * eps0)
            par = dot(E, ub) / dot(ub, ub)
            X = cross(ub, Bf)
            F = [E[d] - par * ub[d] + X[d] / gb for d in range(3)]
            w = [uL[d] - dt * K * gb * dot(F, F) * ub[d] for d in range(3)]
        else:
            # Landau-Lifshitz (Tamburini 2010): du/dt = a_L + q^3/(6 pi eps0 m^2 c^3) { gamma (dE/dt + v x dB/dt)
            #   + q/m [ E x B + (v x B) x B + (v.E) E/c^2 ] - q/m gamma u/c^2 [ (E + v x B)^2 - (v.E)^2/c^2 ] }
            K = q ** 3 / (6 * pi * eps0 * m ** 2 * CL ** 3)
            vv = [a / gb for a in ub]
            dE = [(a - b) / dt for a, b in zip(E, vec(ctx, 'oe', i))]
            dB = [(a - b) / dt for a, b in zip(Bf, vec(ctx, 'ob', i))]
            vxB = cross(vv, Bf)
            vE = dot(vv, E)
            L = lc((o, E), (o, vxB))
            G = dot(L, L) - vE * vE * ic2
            t1 = lc((o, dE), (o, cross(vv, dB)))
            t2 = lc((o, cross(E, Bf)), (o, cross(vxB, Bf)), (vE * ic2, E))
            w = [uL[d] + dt * K * (gb * t1[d] + q / m * (t2[d] - gb * ub[d] * ic2 * G)) for d in range(3)]
        for d in range(3):
            ctx.eq('u%s(%d)' % (AX[d], i), n[d], w[d], scale=1e6)
        ctx.eq('gaminv(%d)' % i, g * gamma(ctx, n), o)


def sparse(v, cu, ce, cb, sym):
    """u, E and B along one axis each"""
    fx = {}
    for n, k in (('u', cu), ('e', ce), ('b', cb)):
        for d, a in enumerate(AX):
            if d not in k:
                fx[n + a] = 0
    return mk(v, [n + AX[k[0]] for n, k in (('u', cu), ('e', ce), ('b', cb)) if n in sym], spec=spec, fixed=fx, tag=' u%s E%s B%s' % tuple('|'.join(AX[d] for d in k) for k in (cu, ce, cb)))


cases = []
for v in (2, 3, 4):
    for cu in range(3):
        for ce in range(3):
            for cb in range(3):
                cases.append(sparse(v, (cu,), (ce,), (cb,), 'ueb'))
    cases += [sparse(v, (d,), ((d + 1) % 3,), ((d + 2) % 3,), 'u') for d in range(3)]
    # one vector in a plane
    for d in range(3):
        if TIER != "thorough" and d != v % 3:
            continue
        e, f = (d + 1) % 3, (d + 2) % 3
        cases += [sparse(v, (d,), (e,), (e, f), 'b'), sparse(v, (e,), (f,), (d, e), 'b'), sparse(v, (d, e), (e,), (d,), 'u'), sparse(v, (d, e), (f,), (e,), 'u'), sparse(v, (d,), (d, e), (f,), 'e'), sparse(v, (f,), (d, e), (f,), 'e')]
    # the constants of the model
    for d in range(3):
        fx = {n + a: 0 for n in 'ueb' for a in AX if (n, AX.index(a)) not in (('u', d), ('e', (d + 1) % 3), ('b', (d + 2) % 3))}
        for k in (['q', 'u' + AX[d]], ['m', 'e' + AX[(d + 1) % 3]], ['dt', 'b' + AX[(d + 2) % 3]]):
            cases.append(mk(v, k, spec=spec, fixed=fx, tag=' axis %d' % d))
    if v == 4:
        for d in range(3):
            fx = {n + a: 0 for n in 'ueb' for a in AX if (n, AX.index(a)) not in (('u', d), ('e', (d + 1) % 3), ('b', (d + 2) % 3))}
            cases += [mk(v, ['oex', 'oey', 'oez', 'obx', 'oby', 'obz'], spec=spec, fixed=fx, tag=' axis %d' % d), mk(v, ['oe' + AX[d], 'ob' + AX[(d + 1) % 3], 'dt'], spec=spec, fixed=fx, tag=' axis %d' % d),
                      mk(v, ['ob' + AX[(d + 1) % 3], 'ob' + AX[(d + 2) % 3], 'u' + AX[d]], spec=spec, fixed=fx, tag=' axis %d' % d)]
    # place in the particle list (the other particles have known values)
    for np, at in ((2, 1), (3, 3), (3, 2)):
        cases.append(mk(v, ['ux', 'ey'], np=np, at=at, spec=spec, fixed=dict(uy=0, uz=0, ex=0, ez=0, bx=0, by=0)))
if __name__ == '__main__':
    main('C08', cases,
         assumptions=['floating point is read as exact real arithmetic; doubles that round a small rational times powers of c and pi are read as that constant (mu0 = 4e-7 pi, eps0 = 1/(mu0 c^2))', 'denominators of the formulas (mean momentum in the Bulanov model, 1 + tau0 u.a/(gamma c^2) in the Sokolov model) do not vanish'],
         outside='vectors with several nonzero components (each of u, E, B lies along one axis, all 27 axis combinations), more than 3 particles, rounding')
