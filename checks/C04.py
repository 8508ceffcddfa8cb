import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import *
from symx.shapes import spline

B = FBuild()
P = B.prog('c04', 'c04.F90')
NAMES = {1: '3d', 2: 'vecV1_1', 3: 'vecV2_1', 4: 'vecV3_1', 5: 'vecV3_2', 6: 'vecV2_3', 7: 'pxrget3d_n', 20: '2d', 21: '2d vect_3_3', 30: '2drz', 31: '2dcirc'}
STAG = dict(ex='x', ey='y', ez='z', bx='yz', by='xz', bz='xy')
ANG = {1: (Q(3, 5), Q(4, 5)), 2: (Q(-5, 13), Q(12, 13)), 3: (Q(8, 17), Q(-15, 17))}
FIX = [(Q(3, 10), Q(7, 10), Q(1, 10)), (Q(8, 10), Q(2, 5), Q(6, 10)), (Q(1, 5), Q(9, 10), Q(7, 10))]


def spec(ctx):
    c = ctx.cfg
    v, g = c['variant'], c['g']
    two = v >= 20
    n = [c['nx'], 0 if two else c['ny'], c['nz']]
    mx, my, mz = n[0] + 1 + 2 * g, (1 if two else n[1] + 1 + 2 * g), n[2] + 1 + 2 * g
    nm = mx * my * mz
    D = [ctx.sym(k) for k in ('dx', 'dy', 'dz')]
    o = [c['nox'], c['noy'], c['noz']]
    half = 0.5 if ctx.native else Q(1, 2)
    outs = {k: ctx.out(k) for k in STAG}
    for i in range(1, c['np'] + 1):
        X = [(ctx.sym(a, i) - ctx.sym(a + 'min')) / D[d] for d, a in enumerate('xyz')]
        if v in (30, 31):
            X[0] = (ctx.sym('r', i) - ctx.sym('xmin')) / D[0]
            co, si = ctx.sym('x', i) / ctx.sym('r', i), ctx.sym('y', i) / ctx.sym('r', i)
        e0 = ctx.sym('e0', i)
        # shapes: index 0 = at the nodes, 1 = along a staggered direction of the component
        sh = {}

        def axis(d, k):
            if two and d == 1:
                return [{0: 1}]
            if not k:
                return spline(ctx, o[d], X[d])
            return spline(ctx, o[d] - (1 if c['low'] else 0), X[d] if c['nodal'] else X[d] - half)

        def go(d, k):
            """split on the position along every axis, for the plain and the staggered shape"""
            if d == 3:
                done()
                return
            if k == 2:
                go(d + 1, 0)
                return
            for s in axis(d, k):
                sh[d, k] = s
                go(d, k + 1)

        def interp(name, m=0, cx=False):
            S = [sh[d, 1 if 'xyz'[d] in STAG[name] else 0] for d in range(3)]
            r = [0, 0] if cx else 0
            for l, wz in S[2].items():
                for k, wy in S[1].items():
                    for j, wx in S[0].items():
                        assert 0 <= j + g < mx and 0 <= l + g < mz
                        idx = 1 + (j + g) + mx * ((0 if two else k + g) + my * (l + g)) + nm * m
                        if cx:
                            for p in (0, 1):
                                r[p] = r[p] + ctx.sym(name + 'g', 2 * idx + p) * (wx * wy * wz)
                        else:
                            r = r + ctx.sym(name + 'g', idx) * (wx * wy * wz)
            return r

        def done():
            if v == 31:
                F = {}
                for nm_ in STAG:
                    t = 0
                    er, ei = 1, 0
                    for m in range(c['nmodes']):
                        a, b = interp(nm_, m, True)
                        # Re(F * (cos - i sin)^m)
                        t = t + a * er - b * ei
                        er, ei = er * co + ei * si, ei * co - er * si
                    F[nm_] = t
            else:
                F = {nm_: interp(nm_) for nm_ in STAG}
            if v in (30, 31):
                for q in 'eb':
                    a, b = F[q + 'x'], F[q + 'y']
                    F[q + 'x'], F[q + 'y'] = a * co - b * si, a * si + b * co
            for k, nm_ in enumerate(('ex', 'ey', 'ez', 'bx', 'by', 'bz')):
                ctx.eq('%s(%d)' % (nm_, i), outs[nm_][i - 1], F[nm_] + e0 * (k + 1))
        go(0, 0)


def mk(v, order, low, nodal=0, algo=0, np=1, sym=1, nx=1, nmodes=1, lvect=2, axes='xyz'):
    o = order if isinstance(order, tuple) else (order,) * 3
    rz = v in (30, 31)
    cfg = dict(variant=v, algo=algo, np=np, nx=nx, ny=1, nz=1, g=2, nox=o[0], noy=o[1], noz=o[2], low=low, nodal=nodal, nmodes=nmodes, lvect=lvect)
    n = dict(x=nx, y=1, z=1)
    bas = dict(x=Q(1, 2), y=Q(-3, 4), z=Q(5, 4))
    h = {a: T.var('d' + a, Q(1, 8), 8) for a in 'xyz'}
    if rz:
        bas['x'] = Q(0)

    def xi(a, i):
        return T.var('xi_' + a, 0, n[a]) if i == sym and a in axes else FIX[(i + 1) % 3]['xyz'.index(a)]

    def pos(a):
        def f(i):
            if rz and a != 'z':
                return rr(i) * ANG[i]['xy'.index(a)]
            return bas[a] + xi(a, i) * h[a]
        return f
    rr = lambda i: bas['x'] + xi('x', i) * h['x']
    fld = lambda i: (-4, 4)
    inp = dict(dx=h['x'], dy=h['y'], dz=h['z'], xmin=bas['x'], ymin=bas['y'], zmin=bas['z'], x=pos('x'), y=pos('y'), z=pos('z'), e0=lambda i: (-1, 1), r=rr,
               exg=fld, eyg=fld, ezg=fld, bxg=fld, byg=fld, bzg=fld)

    def pre(w):
        r = [T.rel('<', T.var('xi_' + a, 0, n[a]), n[a]) for a in 'xyz']
        if rz:
            r.append(T.rel('>', T.var('xi_x', 0, n['x']), Q(1, 100)))
        return r
    nm = '%s[%d%d%d]%s%s algo=%d np=%d sym=%d lvect=%d%s%s' % (NAMES[v], o[0], o[1], o[2], ' lower-order' if low else '', ' nodal' if nodal else '', algo, np, sym, lvect,
                                                          ' modes=%d' % nmodes if v == 31 else '', '' if axes == 'xyz' else ' axes ' + axes)
    return Case(nm, P, cfg, inp, spec, pre=pre, validate=2, bounds='%d cell(s) per direction, every field value of the six grids symbolic, particle %d of %d at any position' % (nx, sym, np))


TH = TIER == 'thorough'
cases = []
for low in (0, 1):
    for o in (1, 2, 3):
        ax = 'xyz' if o < 3 or TH else ('xy' if low else 'xz')
        for algo in (0, 1):
            cases.append(mk(1, o, low, algo=algo, axes=ax))
        cases.append(mk(1, o, low, algo=2, axes=ax if TH or o == 1 else ('yz' if low else 'xy')))
        # place in the particle list: after a full block, in a partial block
        cases.append(mk(1, o, low, algo=0, np=3, sym=3, axes='x' if o != 1 else 'xyz'))
        cases.append(mk(1, o, low, algo=1, np=3, sym=2, axes='y' if o != 1 else 'xyz'))
    cases += [mk(2, 1, low, np=3, sym=3, axes='xyz'), mk(3, 1, low, np=3, sym=3, axes='xyz'), mk(4, 1, low, np=3, sym=3, axes='xyz'), mk(5, 2, low, np=3, sym=3, axes='yz'), mk(6, 3, low, np=1, axes='yz')]
    for o in ((1, 2, 3), (3, 1, 2), (2, 3, 1)):
        cases.append(mk(1, o, low, algo=0, axes='xyz' if TH else 'xz' if o[0] != 2 else 'yz'))
        cases.append(mk(7, o, low, axes='xyz' if TH else 'xy'))
    for o in (1, 2, 3):
        for algo in (0, 1, 2):
            cases.append(mk(20, o, low, algo=algo))
        cases.append(mk(20, o, low, algo=0, np=3, sym=3))
    cases += [mk(20, (1, 1, 2), low, algo=1), mk(20, (3, 1, 1), low, algo=0), mk(20, (2, 1, 3), low, algo=2), mk(21, 3, low, np=3, sym=3)]
    for o in ((1, 1, 1), (2, 1, 2), (3, 1, 3), (1, 1, 3)):
        cases.append(mk(30, o, low, algo=2))
        cases.append(mk(31, o, low, algo=0, nmodes=1))
        cases.append(mk(31, o, low, algo=o[2] % 2, nmodes=3, axes='xyz' if o[0] < 3 else 'x'))
# nodal grids
for o in (1, 2, 3):
    for low in (0, 1):
        cases.append(mk(1, o, low, nodal=1, algo=low, axes='xyz' if o < 3 else 'xz'))
        cases.append(mk(1, o, low, nodal=1, algo=1 - low, axes='xyz' if o < 3 else 'y'))
        cases.append(mk(20, o, low, nodal=1, algo=low))
        cases.append(mk(20, o, low, nodal=1, algo=2 - 2 * low))
        cases.append(mk(31, (o, 1, o), low, nodal=1, nmodes=2, axes='xyz' if o < 3 else 'x'))
for low in (0, 1):
    for o, ax in (((1, 2, 3), 'xy'), ((3, 1, 2), 'yz'), ((2, 3, 1), 'xz'), ((1, 1, 1), 'xyz'), ((2, 2, 2), 'xyz'), ((3, 3, 3), 'y')):
        cases.append(mk(7, o, low, nodal=1, axes='xyz' if TH else ax))
        if o[0] != o[1]:
            cases.append(mk(1, o, low, nodal=1, axes='xyz' if TH else ax[::-1]))
    cases += [mk(2, 1, low, nodal=1, np=3, sym=3), mk(4, 1, low, nodal=1, np=3, sym=3), mk(5, 2, low, nodal=1, np=3, sym=3, axes='xy'), mk(6, 3, low, nodal=1, axes='xz'), mk(21, 3, low, nodal=1, np=3, sym=3)]
    cases += [mk(20, (1, 1, 2), low, nodal=1, algo=1), mk(20, (3, 1, 1), low, nodal=1, algo=0), mk(20, (2, 1, 3), low, nodal=1, algo=2)]
    for o in (1, 2, 3):
        cases.append(mk(7, o, low, axes='xyz' if TH else 'xyz'.replace('xyz'[o - 1], '')))
cases.append(mk(1, 1, 0, nx=2, algo=0))
cases.append(mk(20, 2, 1, nx=2, algo=0))
main('C04', cases,
     assumptions=['floating point is read as exact real arithmetic (rounding is outside the claim)', 'particles lie inside the tile; in cylindrical geometry r > dr/100', 'quadrant symmetry option off'],
     outside='grids larger than 2 cells per direction, several symbolic positions at once, rounding')
