import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import *
from symx.shapes import spline

B = FBuild()
P = B.prog('c01', 'c01.F90')

NAMES = {1: 'scalar_1', 2: 'scalar_2', 3: 'scalar_3', 4: 'vecHVv2_1', 5: 'vecHVv2_2', 6: 'vecHVv4_3', 10: 'vecNOY_1', 11: 'vecHV_1', 12: 'rho_n', 20: 'rho_n_2dxz', 21: 'rhoold_n_2dxz', 22: 'rho_n_2dxz rz'}
FIX = [(Q(3, 10), Q(7, 10), Q(1, 10)), (Q(13, 10), Q(2, 5), Q(8, 5)), (Q(1, 5), Q(9, 5), Q(11, 10)), (Q(17, 10), Q(16, 10), Q(3, 10)),
       (Q(9, 10), Q(1, 10), Q(19, 10)), (Q(4, 10), Q(11, 10), Q(9, 10)), (Q(12, 10), Q(8, 10), Q(6, 10))]


def davoine(ctx, x):
    for j in ctx.floors(x):
        e = x - j
        s0 = 1 - e + (e * e - e) / (4 * j + 2)
        yield {j: s0, j + 1: 1 - s0}


def spec(ctx):
    c = ctx.cfg
    n = [c['nx'], c['ny'], c['nz']]
    two = c['variant'] >= 20
    g = c['g']
    dx, dy, dz = (ctx.sym(k) for k in ('dx', 'dy', 'dz'))
    vol = dx * dz if two else dx * dy * dz
    ords = (c['nox'], c['noy'], c['noz'])
    rho0 = ctx.sym('rho0')
    parts = []
    for i in range(1, c['np'] + 1):
        xs = [(ctx.sym(a, i) - ctx.sym(m)) / d for a, m, d in (('x', 'xmin', dx), ('y', 'ymin', dy), ('z', 'zmin', dz))]
        if c['variant'] == 21:
            dt = ctx.sym('dt')
            xs[0] = xs[0] - ctx.sym('ux', i) * ctx.sym('gi', i) * dt / dx
            xs[2] = xs[2] - ctx.sym('uz', i) * ctx.sym('gi', i) * dt / dz
        if c['variant'] == 22:
            xs[0] = (ctx.sqrt(ctx.sym('x', i) * ctx.sym('x', i) + ctx.sym('y', i) * ctx.sym('y', i)) - ctx.sym('xmin')) / dx
        parts.append((xs, ctx.sym('w', i if c['lw'] else 1)))

    def rec(i, acc):
        if i == len(parts):
            done(acc)
            return
        xs, w = parts[i]
        q = ctx.sym('q') * w / vol
        for sx in (davoine(ctx, xs[0]) if c['rzt'] == 2 else spline(ctx, ords[0], xs[0])):
            for sy in ([{0: 1}] if two else spline(ctx, ords[1], xs[1])):
                for sz in spline(ctx, ords[2], xs[2]):
                    a = dict(acc)
                    for l, wz in sz.items():
                        for k, wy in sy.items():
                            for j, wx in sx.items():
                                t = wx * wy * wz * q
                                a[j, k, l] = a[j, k, l] + t if (j, k, l) in a else t
                    rec(i + 1, a)

    def done(acc):
        rho = ctx.out('rho')
        mx, my, mz = n[0] + 1 + 2 * g, (1 if two else n[1] + 1 + 2 * g), n[2] + 1 + 2 * g
        tot = ctx.num(0)
        seen = 0
        for l in range(mz):
            for k in range(my):
                for j in range(mx):
                    v = rho[j + mx * (k + my * l)]
                    key = (j - g, 0 if two else k - g, l - g)
                    e = rho0
                    if key in acc:
                        e = e + acc[key]
                        seen += 1
                    ctx.eq('rho(%d,%d,%d)#' % key, v, e)
                    tot = tot + (v - rho0)
        q = ctx.sym('q')
        e = ctx.num(0)
        for xs, w in parts:
            e = e + q * w / vol
        ctx.eq('total charge', tot, e)
        ctx.true('all support nodes are in the array', seen == len(acc))
    rec(0, {})


def mk(variant, order, np=1, sym=1, nx=2, ny=2, nz=2, lvect=4, lw=1, ords=None, rzt=0):
    o = ords or (order, order, order)
    cfg = dict(variant=variant, np=np, nx=nx, ny=ny, nz=nz, g=4 if variant == 21 else 3, lvect=lvect, lw=lw, nox=o[0], noy=o[1], noz=o[2], rzt=rzt)
    n = dict(x=nx, y=ny, z=nz)
    bas = dict(x=Q(1, 2), y=Q(-3, 4), z=Q(5, 4))
    if np == 1:
        h = dict(x=T.var('dx', Q(1, 8), 8), y=T.var('dy', Q(1, 8), 8), z=T.var('dz', Q(1, 8), 8))
    else:
        h = dict(x=Q(1, 2), y=Q(3, 4), z=Q(5, 4))

    if variant == 22:
        bas['x'] = Q(1, 2) * h['x']

    def pos(a):
        def f(i):
            if variant == 22 and a != 'z':
                r = bas['x'] + (T.var('xi_x', 0, n['x']) if i == sym else min(FIX[i % len(FIX)][0], n['x'] - Q(1, 10))) * h['x']
                return r * (Q(3, 5), Q(-4, 5))['xy'.index(a)]
            if i == sym:
                return bas[a] + T.var('xi_' + a, 0, n[a]) * h[a]
            v = FIX[i % len(FIX)]['xyz'.index(a)]
            return bas[a] + min(v, n[a] - Q(1, 10)) * h[a]
        return f
    inp = dict(q=(-4, 4), dx=h['x'], dy=h['y'], dz=h['z'], xmin=bas['x'], ymin=bas['y'], zmin=bas['z'], rho0=(-2, 2),
               x=pos('x'), y=pos('y'), z=pos('z'), w=lambda i: (0, 4), dt=Q(1, 4), ux=lambda i: (-1, 1), uz=lambda i: (-1, 1), gi=lambda i: Q(1, 2))

    def pre(w):
        # positions strictly inside the tile, as the particle boundary conditions leave them
        return [T.rel('<', T.var('xi_' + a, 0, n[a]), n[a]) for a in 'xyz']
    nm = '%s[%d%d%d] np=%d sym=%d lvect=%d%s' % (NAMES[variant], o[0], o[1], o[2], np, sym, lvect, '' if lw else ' noweight') + (' type %d' % rzt if variant == 22 else '')
    return Case(nm, P, cfg, inp, spec, pre=pre, bounds='%dx%dx%d cells, 3 guards, %d particle(s), particle %d at any position in the tile' % (nx, ny, nz, np, sym), validate=2)


cases = []
TH = TIER == 'thorough'
for v, o in ((1, 1), (2, 2), (3, 3), (4, 1), (5, 2), (6, 3)):
    cases.append(mk(v, o))
    # every position in a partly filled vector
    for np_, s in ((5, 5), (5, 2)) if not TH else ((5, 1), (5, 4), (5, 5), (8, 8), (9, 9), (9, 3)):
        cases.append(mk(v, o, np=np_, sym=s, nx=2 if TH else 1, ny=1, nz=1))
for o in ((1, 1, 1), (2, 2, 2), (3, 3, 3), (1, 2, 3), (3, 1, 2), (2, 3, 1)):
    cases.append(mk(12, 0, ords=o, nx=2, ny=2, nz=1))
cases.append(mk(12, 0, ords=(1, 2, 3), np=3, sym=2, nx=1, ny=1, nz=1, lw=0))
for v in (20, 21):
    for o in ((1, 1), (2, 2), (3, 3), (1, 3), (2, 1), (3, 2)):
        cases.append(mk(v, 0, ords=(o[0], 1, o[1]), nx=2, ny=1, nz=2 if v == 20 else 1))
for o, rt in (((1, 1), 0), ((1, 2), 2), ((3, 1), 1)):
    cases.append(mk(22, 0, ords=(o[0], 1, o[1]), nx=2, ny=1, nz=1, rzt=rt))
cases.append(mk(22, 0, ords=(1, 1, 1), nx=3, ny=1, nz=1, rzt=2, np=2, sym=1))

main('C01', cases,
     assumptions=['floating point is read as exact real arithmetic (rounding is outside the claim)', 'particles lie inside the tile', 'quadrant symmetry option off'],
     outside='grids larger than 2 cells per direction, more than 9 particles, several symbolic positions at once, compiler vectorisation, rounding')
