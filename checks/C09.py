import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import *
from symx.maxw import *
from symx import terms as T
SM = (15, 37)


def spec(ctx):
    c = ctx.cfg
    A = {n: Arr(ctx, n) for n in COMP[:6]}
    D = Diff(ctx, c['variant'] in SM)
    rng = ranges(c)
    E = [A['e' + a] for a in 'xyz']
    for ci, a in enumerate('xyz'):
        b = A['b' + a]
        for i in b.points():
            if not inside(rng['b' + a], i):
                continue
            if not all(D.fits(E[f], d, i, True) for s, d, f in curl_terms(ci)):
                continue            # next to the end of the array the 3D arbitrary-order stencil is truncated
            t = b.old(*i)
            for s, d, f in curl_terms(ci):
                t = t - D(E[f].old, d, i, True) * s
            ctx.eq('dB%s/dt = -curl E at %r' % (a, i), b.new(*i), t)
    unchanged(ctx, A, rng)
    # the divergence on the cells whose faces are all updated
    nd = 0
    for i in A['bx'].points() if c['div'] >= 0 else ():
        if all(all(inside(rng['b' + a], p) for p, w in D.terms(d, i, True)) for d, a in enumerate('xyz')):
            t = 0
            for d, a in enumerate('xyz'):
                t = t + D(lambda *p: A['b' + a].new(*p) - A['b' + a].old(*p), d, i, True)
            ctx.eq('div B at %r' % (i,), t, 0)
            nd += 1
    if c['div'] > 0:
        assert nd, 'no cell to take the divergence of'


def rz(ctx):
    c = ctx.cfg
    A = {n: Arr(ctx, n) for n in COMP[:6]}
    rng = ranges(c)
    wr, wz, rmin, dr = ctx.sym('wx', 1), ctx.sym('wz', 1), ctx.sym('rmin'), ctx.sym('dr')
    q = 0.5 if ctx.native else Q(1, 2)
    r = lambda x: rmin + dr * x
    axis = c['axis']
    modes = range(c['nmodes']) if c['variant'] == 36 else (None,)
    for m in modes:
        X = (lambda *p: p) if m is None else (lambda *p: p + (m,))
        im = lambda x: CNum.of(x).timesi() * m if m else 0
        Er, Et, Ez = [A['e' + a].old for a in 'xyz']
        for i in A['bx'].points():
            j, k, l = i
            if inside(rng['bx'], i):
                new = A['bx'].new(*X(*i))
                dz = (Et(*X(j, k, l + 1)) - Et(*X(*i))) * wz
                if m is not None and axis and j == 0:
                    if m == 1:      # Ez vanishes on the axis: Ez/r is its radial derivative
                        ceq(ctx, 'Br on the axis, mode 1, %r' % (i,), new, A['bx'].old(*X(*i)) + im(Ez(*X(1, k, l))) * wr + dz)
                    else:
                        ceq(ctx, 'Br vanishes on the axis, mode %d, %r' % (m, i), new, CNum(0))
                else:
                    ceq(ctx, 'Br mode %r %r' % (m, i), new, A['bx'].old(*X(*i)) + dz + (im(Ez(*X(*i))) * (wr * dr) / r(j) if m else 0))
        for i in A['by'].points():
            j, k, l = i
            if inside(rng['by'], i):
                ceq(ctx, 'Bt mode %r %r' % (m, i), A['by'].new(*X(*i)), A['by'].old(*X(*i)) + (Ez(*X(j + 1, k, l)) - Ez(*X(*i))) * wr - (Er(*X(j, k, l + 1)) - Er(*X(*i))) * wz)
        for i in A['bz'].points():
            j, k, l = i
            if inside(rng['bz'], i):
                t = A['bz'].old(*X(*i)) - (Et(*X(j + 1, k, l)) * r(j + 1) - Et(*X(*i)) * r(j)) * wr / r(j + q)
                if m:
                    t = t - im(Er(*X(*i))) * (wr * dr) / r(j + q)
                ceq(ctx, 'Bz mode %r %r' % (m, i), A['bz'].new(*X(*i)), t)
        nd = 0
        for i in A['bz'].points():
            j, k, l = i
            if j >= 0 and all(inside(rng[a], p) for a, p in (('bx', i), ('bx', (j + 1, k, l)), ('by', i), ('bz', i), ('bz', (j, k, l + 1)))):
                d = lambda n, *p: A[n].new(*X(*p)) - A[n].old(*X(*p))
                # r Br vanishes on the axis whatever the stored Br
                t = (d('bx', j + 1, k, l) * r(j + 1) - (0 if axis and j == 0 else d('bx', *i) * r(j))) * wr + (d('bz', j, k, l + 1) - d('bz', *i)) * wz * r(j + q)
                if m:
                    t = t - im(d('by', *i)) * (wr * dr)
                if axis and j == 0:
                    # on the axis the r = 0 terms Et(0)*0 and Ez(0)*m drop out; Ez(0, m>0) = 0 there
                    t = t - (im(Ez(*X(*i))) * (wr * wr * dr) if m else 0)
                ceq(ctx, 'div B mode %r %r' % (m, i), t, CNum(0) if m is not None else 0)
                nd += 1
        assert nd
    unchanged(ctx, A, rng, modes if m is not None else (0,))


def mk(v, name, div=1, dmax=0, axis=0, sp=spec, **kw):
    c = case(v, name, sp, **kw)
    c.cfg.update(div=div, dmax=dmax, axis=axis)
    return c


TH = TIER == 'thorough'
cases = [mk(13, 'Yee 3D', n=(2, 1, 1), g=1, s=(0, 0, 0)), mk(13, 'Yee 3D, staggered update ranges', n=(1, 1, 2), g=3, div=0),
         mk(33, 'Yee 2D', n=(2, 1, 2), g=1, s=(0, 0, 0)), mk(33, 'Yee 2D, staggered update ranges', n=(1, 0, 2), g=3, div=0)]
for o, n in (((2, 2, 2), (1, 1, 1)), ((4, 2, 2), (1, 1, 1)), ((2, 4, 2), (1, 1, 1)), ((2, 2, 4), (1, 1, 1)), ((4, 4, 4), (1, 1, 1))):
    h = max(o) // 2 - 1
    cases.append(mk(11, '3D order %d,%d,%d' % o, o=o, n=n, g=2 * h + 1 + (h == 0), s=(h, h, h)))
    cases.append(mk(11, '3D nodal order %d,%d,%d' % o, o=o, n=n, g=2 * h + 2 if max(o) < 4 else 3, s=(h, h, h), nodal=1, div=0))
cases.append(mk(11, '3D order 2,4,2, update range up to the guard ends', o=(2, 4, 2), n=(1, 1, 1), g=2, s=(2, 2, 2), div=-1))
for o in ((2, 2, 2), (4, 2, 2), (2, 2, 4), (4, 4, 4), (6, 2, 4)) + (((8, 8, 8),) if TH else ()):
    h = max(o) // 2 - 1
    cases.append(mk(31, '2D order %d,%d' % (o[0], o[2]), o=o, n=(1, 1, 2), g=2 * h + 1, s=(h, 0, h)))
    cases.append(mk(31, '2D nodal order %d,%d' % (o[0], o[2]), o=o, n=(2, 1, 1), g=2 * h + 3, s=(h, 0, h), nodal=1, div=0))
for d, w in ((0, (Q(1, 2), Q(1, 3), Q(1, 4))), (1, (Q(1, 3), Q(3, 4), Q(1, 4))), (2, (Q(1, 5), Q(1, 3), Q(2, 5))), (0, (Q(1, 2),) * 3)):
    W = dict(zip('xyz', w))
    cases.append(mk(15, 'CKC 3D dt/dx=%s,%s,%s' % w, w=W, g=3, n=(1, 1, 1), s=(1, 1, 1), dmax=d, div=0))
    if w[0] != w[1] or TH:
        cases.append(mk(15, 'CKC 3D divergence dt/dx=%s,%s,%s' % w, w=W, g=4, n=(2, 2, 2), s=(1, 1, 1), dmax=d))


def order(big, *small):
    return lambda w: [T.rel('<=', T.var('w%s1' % a, Q(1, 8), 8), T.var('w%s1' % big, Q(1, 8), 8)) for a in small]


for d in range(3):
    o = [a for i, a in enumerate('xyz') if i != d]
    cases.append(mk(15, 'CKC 3D any coefficients, %s largest' % 'xyz'[d], g=1, n=(0, 0, 0), s=(0, 0, 0), dmax=d, div=0, pre=order('xyz'[d], *o)))
for d in (0, 2):
    cases.append(mk(37, 'CKC 2D any coefficients, %s largest' % 'xyz'[d], g=3, n=(2, 1, 2), s=(1, 0, 1), dmax=d, div=0, pre=order('xyz'[d], 'zyx'[d])))
    cases.append(mk(37, 'CKC 2D divergence, %s largest' % 'xyz'[d], g=4, n=(3, 1, 3), s=(1, 0, 1), dmax=d, pre=order('xyz'[d], 'zyx'[d])))
DR = T.var('dr', Q(1, 8), 8)
RM = T.var('rmin', Q(1, 4), 16)
for nm, v, m in (('RZ', 35, 1), ('RZ 3 modes', 36, 3)):
    cases.append(mk(v, nm + ' with the axis', sp=rz, axis=1, n=(2, 1, 1), g=1, s=(0, 0, 0), nm=m, rmin=0, dr=DR))
    cases.append(mk(v, nm + ' annulus', sp=rz, n=(2, 1, 1), g=1, s=(0, 0, 0), nm=m, rmin=RM, dr=DR))
    cases.append(mk(v, nm + ' staggered update ranges', sp=rz, n=(2, 1, 2), g=3, s=(1, 0, 1), nm=m, rmin=RM, dr=Q(1, 2)))
for om in OMP:
    cases.append(mk(13, 'Yee 3D', n=(1, 1, 1), g=1, s=(0, 0, 0), div=0, omp=om))
    cases.append(mk(11, '3D order 4,2,4', o=(4, 2, 4), n=(1, 0, 1), g=2, s=(0, 0, 0), div=0, omp=om))
    cases.append(mk(31, '2D order 4,4', o=(4, 2, 4), n=(1, 0, 1), g=3, s=(0, 0, 0), div=0, omp=om))
    cases.append(mk(33, 'Yee 2D', n=(2, 1, 2), g=1, s=(0, 0, 0), div=0, omp=om))
    cases.append(mk(15, 'CKC 3D', w=dict(zip('xyz', (Q(1, 2), Q(1, 3), Q(1, 4)))), g=2, n=(1, 1, 1), s=(0, 0, 0), div=0, omp=om))
    cases.append(mk(37, 'CKC 2D', g=2, n=(2, 1, 2), s=(0, 0, 0), div=0, pre=order('x', 'z'), omp=om))
    for nm, v, m in (('RZ', 35, 1), ('RZ 3 modes', 36, 3)):
        cases.append(mk(v, nm + ' with the axis', sp=rz, axis=1, n=(2, 1, 1), g=1, s=(0, 0, 0), nm=m, rmin=0, dr=DR, omp=om))
main('C09', cases, assumptions=['floating point is read as exact real arithmetic'], outside='grids above 2 cells per direction, orders above 6 (8 thorough), the truncated stencil at the very end of the guard cells')
