import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import *
from symx.shapes import spline

B = FBuild()
P = B.prog('c03', 'c03.F90')
CL = 299792458
NAMES = {1: 'esirkepov_1', 2: 'esirkepov_2', 3: 'esirkepov_3', 4: 'esirkepov_n', 21: '2d_1_1', 22: '2d_2_2', 23: '2d_3_3', 24: '2d_n', 31: '2d_n rz', 41: 'circ'}


def spec(ctx):
    c = ctx.cfg
    n = [c['nx'], c['ny'], c['nz']]
    v = c['variant']
    two = v >= 20
    g = c['g']
    o = [c['nox'], c['noy'], c['noz']]
    D = [ctx.sym(k) for k in ('dx', 'dy', 'dz')]
    vol = D[0] * D[2] if two else D[0] * D[1] * D[2]
    dt = ctx.sym('dt')
    half = Q(1, 2) if not ctx.native else 0.5
    third = Q(1, 3) if not ctx.native else 1 / 3.
    dirs = (0, 2) if two else (0, 1, 2)
    parts = []
    for i in range(1, c['np'] + 1):
        vel = [ctx.sym('u' + a, i) * ctx.sym('gi', i) for a in 'xyz']
        new = [(ctx.sym(a, i) - ctx.sym(a + 'min')) / D[d] for d, a in enumerate('xyz')]
        old = [new[d] - dt * vel[d] / D[d] for d in range(3)]
        if v in (31, 41):
            r, ro = ctx.sym('r', i), ctx.sym('rold', i)
            new[0] = (r - ctx.sym('xmin')) / D[0]
            old[0] = (ro - ctx.sym('xmin')) / D[0]
        parts.append((new, old, vel, ctx.sym('w', i if c['lw'] else 1), i))
    mx, my, mz = n[0] + 1 + 2 * g, (1 if two else n[1] + 1 + 2 * g), n[2] + 1 + 2 * g
    nm = mx * my * mz

    def sp(d, x):
        if two and d == 1:
            return [{0: 1}]
        if d == 0 and c['rzt'] == 2:
            return davoine(x)
        return spline(ctx, o[d], x)

    def davoine(x):
        for j in ctx.floors(x):
            e = x - j
            s0 = 1 - e + (e * e - e) / (4 * j + 2)
            yield {j: s0, j + 1: 1 - s0}

    def rec(i, acc):
        if i == len(parts):
            done(acc)
            return
        new, old, vel, w, ii = parts[i]
        for a0 in sp(0, new[0]):
            for a1 in sp(1, new[1]):
                for a2 in sp(2, new[2]):
                    for b0 in sp(0, old[0]):
                        for b1 in sp(1, old[1]):
                            for b2 in sp(2, old[2]):
                                rec(i + 1, acc + [((a0, a1, a2), (b0, b1, b2), vel, w, ii)])

    def prod(S, j, k, l):
        if j in S[0] and k in S[1] and l in S[2]:
            return S[0][j] * S[1][k] * S[2][l]
        return 0

    def done(acc):
        if v == 41:
            return circ(acc)
        q = ctx.sym('q')
        J = [ctx.out('j' + a) for a in 'xyz']
        base = [ctx.sym('j0') * (k + 1) for k in range(3)]
        keys = [set(), set(), set()]
        for S, O, vel, w, ii in acc:
            for d in range(3):
                for s in list(S[d]) + list(O[d]):
                    keys[d].add(s)
        at = lambda d, j, k, l: J[d][(j + g) + mx * ((0 if two else k + g) + my * (l + g))] - base[d]
        lo = [-g, 0 if two else -g, -g]
        hi = [lo[0] + mx - 1, lo[1] + my - 1, lo[2] + mz - 1]
        tot = [ctx.num(0)] * 3
        ok = all(lo[d] <= x <= hi[d] for d in range(3) for x in keys[d])
        ctx.true('all support nodes are in the array', ok)
        for l in range(lo[2], hi[2] + 1):
            for k in range(lo[1], hi[1] + 1):
                for j in range(lo[0], hi[0] + 1):
                    inside = j in keys[0] and k in keys[1] and l in keys[2]
                    div = 0
                    for d in dirs:
                        p = [j, k, l]
                        p[d] -= 1
                        near = inside or (j in keys[0] or d == 0 and j + 1 in keys[0]) and (k in keys[1] or d == 1 and k + 1 in keys[1]) and (l in keys[2] or d == 2 and l + 1 in keys[2])
                        cur = at(d, j, k, l)
                        if p[d] >= lo[d] and inside:
                            div = div + (cur - at(d, *p)) / D[d]
                        elif inside:
                            div = div + cur / D[d]
                        if not near:
                            ctx.eq('j%s(%d,%d,%d)# outside the support' % ('xyz'[d], j, k, l), cur, ctx.num(0))
                        elif not inside:
                            ctx.eq('j%s(%d,%d,%d)# before the first support node' % ('xyz'[d], j, k, l), cur, ctx.num(0))
                    if inside:
                        dr = 0
                        for S, O, vel, w, ii in acc:
                            dr = dr + (prod(S, j, k, l) - prod(O, j, k, l)) * (q * w)
                        ctx.eq('continuity(%d,%d,%d)#' % (j, k, l), div * (vol * dt), 0 - dr + ctx.num(0))
                    if two:
                        e = 0
                        if inside:
                            for S, O, vel, w, ii in acc:
                                s0, s1, o0, o1 = S[0].get(j, 0), S[2].get(l, 0), O[0].get(j, 0), O[2].get(l, 0)
                                vy = vel[1]
                                if v == 31:
                                    vy = vel[1] * CC[ii][0] - vel[0] * CC[ii][1]
                                dx_, dz_ = o0 - s0, o1 - s1
                                e = e + (s0 * s1 + half * (dx_ * s1 + s0 * dz_) + third * (dx_ * dz_)) * (q * w * vy)
                        ctx.eq('jy(%d,%d)#' % (j, l), at(1, j, 0, l) * vol, e + ctx.num(0))
                    for d in range(3):
                        if v != 31:
                            tot[d] = tot[d] + at(d, j, k, l)
        if v != 31 and c['rzt'] == 0 and c['totals']:
            for d in range(3):
                e = ctx.num(0)
                for S, O, vel, w, ii in acc:
                    e = e + q * w * vel[d]
                ctx.eq('total j' + 'xyz'[d], tot[d] * vol, e)

    def circ(acc):
        q = ctx.sym('q')
        nmod = c['nmodes']
        R, TH, Z = ctx.out('cr'), ctx.out('ct'), ctx.out('cz')

        def at(A, j, l, m):
            k = 2 * ((j + g) + mx * (l + g) + nm * m)
            return A[k], A[k + 1]
        for m in range(nmod):
            S, O, vel, w, ii = acc[0]
            cn, sn, co, so = CC[ii] + CO[ii]
            en, eo = (1, 0), (1, 0)
            for _ in range(m):
                en = (en[0] * cn - en[1] * sn, en[0] * sn + en[1] * cn)
                eo = (eo[0] * co - eo[1] * so, eo[0] * so + eo[1] * co)
            f = 2 if m else 1
            js = sorted(set(S[0]) | set(O[0]))
            ls = sorted(set(S[2]) | set(O[2]))
            for l in range(-g, mz - g):
                for j in range(-g, mx - g):
                    inside = j in js and l in ls
                    if not inside:
                        near = (j in js or j + 1 in js) and (l in ls or l + 1 in ls)
                        for A, nmA in ((R, 'jr'), (TH, 'jt'), (Z, 'jz')):
                            a = at(A, j, l, m)
                            ctx.eq('%s mode %d (%d,%d)# outside the support' % (nmA, m, j, l), a[0], ctx.num(0))
                            ctx.eq('%s mode %d (%d,%d)# outside the support (im)' % (nmA, m, j, l), a[1], ctx.num(0))
                        continue
                    rg = (j * D[0] + ctx.sym('xmin'))
                    for p in (0, 1):
                        d = (at(R, j, l, m)[p] - at(R, j - 1, l, m)[p]) / D[0] + (at(Z, j, l, m)[p] - at(Z, j, l - 1, m)[p]) / D[2]
                        # (1/r) d/dtheta of mode m: -i m / r ; the routine's densities still carry the factor r
                        t = at(TH, j, l, m)
                        it = (t[1], 0 - t[0])[p]        # -i * t
                        dr = S[0].get(j, 0) * S[2].get(l, 0) * en[p] - O[0].get(j, 0) * O[2].get(l, 0) * eo[p]
                        ctx.eq('continuity mode %d (%d,%d)#%s' % (m, j, l, ' im' if p else ''), (d * rg + it * m) * (vol * dt), 0 - dr * rg * (f * q * w) + ctx.num(0))
    rec(0, [])


CC = {1: (Q(3, 5), Q(4, 5)), 2: (Q(8, 17), Q(-15, 17))}
CO = {1: (Q(5, 13), Q(12, 13)), 2: (Q(8, 17), Q(-15, 17))}


def mk(v, order, axes, fix=0, np=1, nx=1, ny=1, nz=1, rzt=0, nmodes=1, lw=1, totals=True, symh=True):
    o = order if isinstance(order, tuple) else (order,) * 3
    if rzt == 2:
        o = (1,) + o[1:]
    rz = v in (31, 41)
    cfg = dict(variant=v, np=np, nx=nx, ny=ny, nz=nz, g=4, nox=o[0], noy=o[1], noz=o[2], rzt=rzt, nmodes=nmodes, lw=lw, totals=int(totals))
    n = dict(x=nx, y=ny, z=nz)
    bas = dict(x=Q(1, 2), y=Q(-3, 4), z=Q(5, 4))
    h = {a: (T.var('d' + a, Q(1, 8), 8) if symh else Q(1 + 'xyz'.index(a), 2)) for a in 'xyz'}
    dt = T.var('tau', Q(1, 64), Q(1, 10)) / CL if symh else Q(1, 16) / CL
    gi = T.var('gi', Q(1, 100), 1) if symh else Q(3, 5)
    if rz:
        bas['x'] = Q(0) if v == 31 else Q(2) * h['x']
    # fixed (position, displacement) pairs of the axes that are not symbolic: crossing down, up, not at all
    FX = [(Q(1, 5), Q(2, 5)), (Q(7, 10), Q(-3, 5)), (Q(2, 5), Q(1, 10)), (Q(3, 5), Q(1, 5))]

    def pair(a, i):
        if i == 1 and a in axes:
            return T.var('xi_' + a, 0, n[a]), T.var('eta_' + a, -1, 1)
        return FX[(fix + 'xyz'.index(a) + i) % 4]

    def pos(a):
        def f(i):
            if rz and a == 'x':
                return rr(i) * CC[i][0]
            if rz and a == 'y':
                return rr(i) * CC[i][1]
            return bas[a] + pair(a, i)[0] * h[a]
        return f
    # radial positions in rz: r - xmin in cells
    rr = lambda i: (T.var('r', Q(1, 100), 16) if 'x' in axes and i == 1 else bas['x'] + pair('x', i)[0] * h['x'])
    ro = lambda i: (T.var('rold', Q(1, 100), 24) if 'x' in axes and i == 1 else bas['x'] + (pair('x', i)[0] - pair('x', i)[1]) * h['x'])
    if rz and 'x' not in axes:
        FX[:] = [(Q(1, 5), Q(-2, 5)), (Q(7, 10), Q(-3, 5)), (Q(2, 5), Q(1, 10)), (Q(3, 5), Q(1, 5))]

    def vel(a):
        def f(i):
            if rz and a in 'xy':
                k = 'xy'.index(a)
                return (rr(i) * CC[i][k] - ro(i) * CO[i][k]) / (dt * gi)
            if v in (21, 22, 23, 24) and a == 'y':
                return (-3, 3)
            return pair(a, i)[1] * h[a] / (dt * gi)
        return f
    inp = dict(q=(-4, 4), dx=h['x'], dy=h['y'], dz=h['z'], dt=dt, xmin=bas['x'], ymin=bas['y'], zmin=bas['z'], j0=(-2, 2), x=pos('x'), y=pos('y'), z=pos('z'),
               ux=vel('x'), uy=vel('y'), uz=vel('z'), gi=lambda i: gi, w=lambda i: (0, 4), r=rr, rold=ro)

    def pre(w):
        r = []
        for a in axes:
            if rz and a == 'x':
                R, RO = T.var('r', Q(1, 100), 16), T.var('rold', Q(1, 100), 24)
                r += [T.rel('<', R - bas['x'], h['x'] * nx), T.rel('>=', R - bas['x'], 0), T.rel('>', RO - bas['x'], h['x'] * Q(1, 100) if v == 31 else -h['x']),
                      T.rel('<', R - RO, h['x']), T.rel('>', R - RO, -h['x'])]
                if v == 31:
                    r.append(T.rel('>', R - bas['x'], h['x'] * Q(1, 100)))
                continue
            r += [T.rel('<', T.var('xi_' + a, 0, n[a]), n[a]), T.rel('<', T.var('eta_' + a, -1, 1), 1), T.rel('>', T.var('eta_' + a, -1, 1), -1)]
        return r
    nm = '%s[%d%d%d] symbolic axes %s, fixed set %d, np=%d%s%s' % (NAMES[v], o[0], o[1], o[2], axes, fix, np, ' rz type %d' % rzt if rz else '', '' if lw else ' noweight')
    cs = Case(nm, P, cfg, inp, spec, pre=pre, validate=2,
              bounds='%dx%dx%d cells, %d particle(s); particle 1 at every position and with every displacement below one cell along %s, at a fixed crossing/non-crossing pair along the other axes' % (nx, ny, nz, np, axes))
    if rz:
        cs.rvals = True
    return cs


TH = TIER == 'thorough'
cases = []
if TH:
    for v, o in ((1, 1), (4, 1)):
        cases.append(mk(v, o, 'xyz'))
    for v, o in ((2, 2), (3, 3), (4, 2), (4, 3), (4, (1, 2, 3)), (4, (3, 1, 2)), (4, (2, 3, 1))):
        for ax in ('xy', 'xz', 'yz'):
            for fx in range(4):
                cases.append(mk(v, o, ax, fx, totals=False))
    for v, o in ((21, 1), (22, 2), (23, 3), (24, 1), (24, 2), (24, 3), (24, (1, 1, 3)), (24, (2, 1, 1)), (24, (3, 1, 2))):
        cases.append(mk(v, o, 'xz', nx=2))
        cases.append(mk(v, o, 'xz', np=2))
else:
    cases.append(mk(1, 1, 'xyz'))
    for v, o in ((2, 2), (3, 3)):
        cases += [mk(v, o, 'x', 0), mk(v, o, 'y', 1), mk(v, o, 'z', 2)]
    cases += [mk(3, 3, 'xz', 3, symh=False, totals=False), mk(2, 2, 'xy', 1, symh=False, totals=False)]
    cases += [mk(4, 1, 'xy', 0), mk(4, 2, 'y', 1), mk(4, 3, 'z', 2), mk(4, (1, 2, 3), 'x', 3), mk(4, (3, 1, 2), 'y', 0), mk(4, (2, 3, 1), 'z', 1), mk(4, (1, 2, 3), 'z', 3, np=2, lw=0)]
    for v, o in ((21, 1), (22, 2), (23, 3), (24, 1), (24, 2), (24, 3), (24, (1, 1, 3)), (24, (2, 1, 1))):
        cases.append(mk(v, o, 'xz'))
    for v, o in ((1, 1), (3, 3), (22, 2), (24, 1), (23, 3)):
        cases.append(mk(v, o, 'x', 1, np=2, lw=1 if v < 4 else 0 if v == 24 else 1))
cases.append(mk(31, 1, 'xz'))
cases.append(mk(31, 1, 'xz', rzt=2))
cases.append(mk(31, 3, 'x'))
for o in (1, 2, 3):
    cases.append(mk(41, o, 'xz' if o == 1 else 'x', nmodes=1))
cases.append(mk(41, 1, 'xz', rzt=2))
cases.append(mk(41, 1, 'xz', nmodes=3))
cases.append(mk(41, 3, 'z', nmodes=2))

main('C03', cases,
     assumptions=['floating point is read as exact real arithmetic (rounding is outside the claim)', 'the particle moves less than one cell per direction and clight*dt is below one cell'],
     outside='grids larger than 2 cells per direction, several symbolic particles at once, rounding')
