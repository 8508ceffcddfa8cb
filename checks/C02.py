import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import *
from symx.shapes import spline

B = FBuild()
P = B.prog('c02', 'c02.F90')
NAMES = {1: 'scalar_1', 2: 'scalar_2', 3: 'scalar_3', 4: 'vecHVv2_1', 5: 'vecHVv2_2', 6: 'vecHVv3_3', 7: 'vnr_1', 8: 'vnr_2', 9: 'vnr_3', 21: 'scalar2d_1', 22: 'scalar2d_2', 23: 'scalar2d_3'}
FIX = [(Q(3, 10), Q(7, 10), Q(1, 10)), (Q(13, 10), Q(2, 5), Q(8, 5)), (Q(1, 5), Q(9, 5), Q(11, 10)), (Q(17, 10), Q(16, 10), Q(3, 10)),
       (Q(9, 10), Q(1, 10), Q(19, 10)), (Q(4, 10), Q(11, 10), Q(9, 10)), (Q(12, 10), Q(8, 10), Q(6, 10))]


def spec(ctx):
    c = ctx.cfg
    n = [c['nx'], c['ny'], c['nz']]
    two = c['variant'] >= 20
    g = c['g']
    o = c['order']
    D = [ctx.sym(k) for k in ('dx', 'dy', 'dz')]
    vol = D[0] * D[2] if two else D[0] * D[1] * D[2]
    dt = ctx.sym('dt')
    h = 0 if c['nodal'] else Q(1, 2)
    if ctx.native:
        h = float(h)
    half = Q(1, 2) if not ctx.native else 0.5
    parts = []
    for i in range(1, c['np'] + 1):
        v = [ctx.sym('u' + a, i) * ctx.sym('gi', i) for a in 'xyz']
        xm = [(ctx.sym(a, i) - ctx.sym(a + 'min') - half * dt * v[d]) / D[d] for d, a in enumerate('xyz')]
        parts.append((xm, v, ctx.sym('w', i)))
    comps = {}

    def rec(i, acc):
        if i == len(parts):
            done(acc)
            return
        xm, v, w = parts[i]
        q = ctx.sym('q') * w / vol
        node = lambda d: [{0: 1}] if two and d == 1 else spline(ctx, o, xm[d])
        stag = lambda d: [{0: 1}] if two and d == 1 else spline(ctx, o, xm[d] - h)
        for n0 in node(0):
            for n1 in node(1):
                for n2 in node(2):
                    for s0 in stag(0):
                        for s1 in stag(1):
                            for s2 in stag(2):
                                a = [dict(x) for x in acc]
                                for cc, W in enumerate(((s0, n1, n2), (n0, s1, n2), (n0, n1, s2))):
                                    for l, wz in W[2].items():
                                        for k, wy in W[1].items():
                                            for j, wx in W[0].items():
                                                t = wx * wy * wz * (q * v[cc])
                                                a[cc][j, k, l] = a[cc][j, k, l] + t if (j, k, l) in a[cc] else t
                                rec(i + 1, a)

    def done(acc):
        mx, my, mz = n[0] + 1 + 2 * g, (1 if two else n[1] + 1 + 2 * g), n[2] + 1 + 2 * g
        for cc, nm in enumerate(('jx', 'jy', 'jz')):
            J = ctx.out(nm)
            base = ctx.sym('j0') * (cc + 1)
            tot = ctx.num(0)
            seen = 0
            for l in range(mz):
                for k in range(my):
                    for j in range(mx):
                        v = J[j + mx * (k + my * l)]
                        key = (j - g, 0 if two else k - g, l - g)
                        e = base
                        if key in acc[cc]:
                            e = e + acc[cc][key]
                            seen += 1
                        ctx.eq(nm + '(%d,%d,%d)#' % key, v, e)
                        if o < 3 or two:
                            tot = tot + (v - base)
            e = ctx.num(0)
            for xm, v, w in parts:
                e = e + ctx.sym('q') * w / vol * v[cc]
            if o < 3 or two:
                ctx.eq('total ' + nm, tot, e)
            ctx.true('support nodes of %s are in the array' % nm, seen == len(acc[cc]))
    rec(0, [{}, {}, {}])


def mk(variant, order, np=1, sym=1, nx=1, ny=1, nz=1, nodal=0, lvect=8):
    cfg = dict(variant=variant, order=order, np=np, nx=nx, ny=ny, nz=nz, g=3 if order < 3 else 4, lvect=lvect, nodal=nodal)
    n = dict(x=nx, y=ny, z=nz)
    bas = dict(x=Q(1, 2), y=Q(-3, 4), z=Q(5, 4))
    if np == 1:
        h = {a: T.var('d' + a, Q(1, 8), 8) for a in 'xyz'}
        dt = T.var('dt', Q(1, 8), 4)
        gi = T.var('gi', Q(1, 100), 1)
    else:
        h = dict(x=Q(1, 2), y=Q(3, 4), z=Q(5, 4))
        dt = Q(1, 4)
        gi = Q(3, 5)

    def pos(a):
        def f(i):
            if i == sym:
                return bas[a] + T.var('xi_' + a, 0, n[a]) * h[a]
            return bas[a] + min(FIX[i % len(FIX)]['xyz'.index(a)], n[a] - Q(1, 10)) * h[a]
        return f

    def vel(a):
        def f(i):
            if i == sym:
                return T.var('eta_' + a, -1, 1) * h[a] / (dt * gi)
            return (Q((i * 7 + 'xyz'.index(a) * 3) % 9 - 4, 5)) * h[a] / (dt * Q(3, 5))
        return f
    inp = dict(q=(-4, 4), dx=h['x'], dy=h['y'], dz=h['z'], dt=dt, xmin=bas['x'], ymin=bas['y'], zmin=bas['z'], j0=(-2, 2), x=pos('x'), y=pos('y'), z=pos('z'),
               ux=vel('x'), uy=vel('y'), uz=vel('z'), gi=lambda i: gi if i == sym else Q(3, 5), w=lambda i: (0, 4))

    def pre(w):
        r = [T.rel('<', T.var('xi_' + a, 0, n[a]), n[a]) for a in 'xyz']
        r += [T.rel('<', T.var('eta_' + a, -1, 1), 1) for a in 'xyz'] + [T.rel('>', T.var('eta_' + a, -1, 1), -1) for a in 'xyz']
        return r
    nm = '%s np=%d sym=%d%s' % (NAMES[variant], np, sym, ' nodal' if nodal else '')
    return Case(nm, P, cfg, inp, spec, pre=pre, bounds='%dx%dx%d cells, %d particle(s), particle %d at any position with any displacement below one cell per step' % (nx, ny, nz, np, sym), validate=2)


TH = TIER == 'thorough'
cases = []
ALL = ((1, 1), (2, 2), (3, 3), (4, 1), (5, 2), (6, 3), (7, 1), (8, 2), (9, 3))
if TH:
    for v, o in ALL:
        cases.append(mk(v, o))
        cases.append(mk(v, o, nodal=1))
        cases.append(mk(v, o, nx=2, ny=1, nz=2))
        for np_, s in ((9, 9), (5, 3), (9, 8), (8, 8), (17, 16)) if v > 3 else ((3, 2),):
            cases.append(mk(v, o, np=np_, sym=s))
else:
    for v, o in ALL:
        if o == 1 or v == 1:
            cases += [mk(v, o), mk(v, o, nodal=1)]
        elif o == 2:
            cases.append(mk(v, o, nodal=1, np=3, sym=2))
    for v, o, np_, s in ((4, 1, 9, 9), (7, 1, 9, 9), (4, 1, 5, 3), (7, 1, 5, 3), (1, 1, 3, 2), (2, 2, 1, 1), (5, 2, 9, 9), (8, 2, 5, 3),
                         (3, 3, 1, 1), (6, 3, 9, 9), (9, 3, 5, 3)):
        cases.append(mk(v, o, np=np_, sym=s))
    cases.append(mk(6, 3, nodal=1))
for v, o in ((21, 1), (22, 2), (23, 3)):
    cases.append(mk(v, o, nx=2, nz=2))
    cases.append(mk(v, o, nx=1, nz=1, nodal=1))
    cases.append(mk(v, o, np=3, sym=2))

main('C02', cases,
     assumptions=['floating point is read as exact real arithmetic (rounding is outside the claim)', 'particles lie inside the tile and move less than one cell per step'],
     outside='grids larger than 2 cells per direction, several symbolic particles at once, compiler vectorisation, rounding')
