import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import *
from symx.maxw import *
from symx import terms as T
GRAD, GSM = (4, 24), (5, 27)


def spec(ctx):
    c = ctx.cfg
    A = {n: Arr(ctx, n) for n in COMP[:9]}
    D = Diff(ctx)
    rng = ranges(c)
    mudt = ctx.sym('mudt')
    B = [A['b' + a] for a in 'xyz']
    for ci, a in enumerate('xyz'):
        e, jc = A['e' + a], A['j' + a]
        for i in e.points():
            if not inside(rng['e' + a], i):
                continue
            if not all(D.fits(B[f], d, i, False) for s, d, f in curl_terms(ci)):
                continue            # next to the end of the array the 3D arbitrary-order stencil is truncated
            t = e.old(*i) - jc.old(*i) * mudt
            for s, d, f in curl_terms(ci):
                t = t + D(B[f].old, d, i, False) * s
            ctx.eq('dE%s/dt = curl B - J at %r' % (a, i), e.new(*i), t)
    unchanged(ctx, A, rng)
    nd = 0
    for i in A['ex'].points() if c['div'] >= 0 else ():
        if all(all(inside(rng['e' + a], p) for p, w in D.terms(d, i, False)) for d, a in enumerate('xyz')):
            t = 0
            for d, a in enumerate('xyz'):
                t = t + D(lambda *p: A['e' + a].new(*p) - A['e' + a].old(*p) + A['j' + a].old(*p) * mudt, d, i, False)
            ctx.eq('div E + J at %r' % (i,), t, 0)
            nd += 1
    if c['div'] > 0:
        assert nd, 'no node to take the divergence at'


def grad(ctx):
    c = ctx.cfg
    A = {n: Arr(ctx, n) for n in COMP[:6]}
    F = Arr(ctx, 'f')
    D = Diff(ctx, c['variant'] in GSM)
    rng = ranges(c)
    for d, a in enumerate('xyz'):
        e = A['e' + a]
        for i in e.points():
            if inside(rng['e' + a], i):
                ctx.eq('dE%s/dt = grad F at %r' % (a, i), e.new(*i), e.old(*i) + D(F.old, d, i, True))
    unchanged(ctx, A, rng)


def rz(ctx):
    c = ctx.cfg
    A = {n: Arr(ctx, n) for n in COMP[:9]}
    rng = ranges(c)
    wr, wz, rmin, dr, mudt = ctx.sym('wx', 1), ctx.sym('wz', 1), ctx.sym('rmin'), ctx.sym('dr'), ctx.sym('mudt')
    q = 0.5 if ctx.native else Q(1, 2)
    r = lambda x: rmin + dr * x
    axis = c['axis']
    modes = range(c['nmodes']) if c['variant'] == 26 else (None,)
    for m in modes:
        X = (lambda *p: p) if m is None else (lambda *p: p + (m,))
        im = lambda x: CNum.of(x).timesi() * m if m else 0
        Br, Bt, Bz = [A['b' + a].old for a in 'xyz']
        old = lambda n, i: A[n].old(*X(*i)) - A['j' + n[1]].old(*X(*i)) * mudt
        for i in A['ex'].points():
            j, k, l = i
            if inside(rng['ex'], i):
                t = old('ex', i) - (Bt(*X(*i)) - Bt(*X(j, k, l - 1))) * wz
                if m:
                    t = t - im(Bz(*X(*i))) * (wr * dr) / r(j + q)
                ceq(ctx, 'Er mode %r %r' % (m, i), A['ex'].new(*X(*i)), t)
        for i in A['ey'].points():
            j, k, l = i
            if inside(rng['ey'], i):
                new = A['ey'].new(*X(*i))
                if axis and j == 0:
                    if m == 1:
                        ceq(ctx, 'Et = -i Er on the axis, mode 1, %r' % (i,), new, -A['ex'].new(*X(*i)).timesi())
                    elif m is None:
                        ceq(ctx, 'Et kept on the axis %r' % (i,), new, A['ey'].old(*i))
                    else:
                        ceq(ctx, 'Et vanishes on the axis, mode %d, %r' % (m, i), new, CNum(0))
                else:
                    ceq(ctx, 'Et mode %r %r' % (m, i), new, old('ey', i) - (Bz(*X(*i)) - Bz(*X(j - 1, k, l))) * wr + (Br(*X(*i)) - Br(*X(j, k, l - 1))) * wz)
        for i in A['ez'].points():
            j, k, l = i
            if inside(rng['ez'], i):
                new = A['ez'].new(*X(*i))
                if axis and j == 0:
                    if m:
                        ceq(ctx, 'Ez vanishes on the axis, mode %d, %r' % (m, i), new, CNum(0))
                    else:
                        ceq(ctx, 'Ez on the axis %r' % (i,), new, old('ez', i) + Bt(*X(*i)) * (wr * 4))
                else:
                    t = old('ez', i) + (Bt(*X(*i)) * r(j + q) - Bt(*X(j - 1, k, l)) * r(j - q)) * wr / r(j)
                    if m:
                        t = t + im(Br(*X(*i))) * (wr * dr) / r(j)
                    ceq(ctx, 'Ez mode %r %r' % (m, i), new, t)
        nd = 0
        d = lambda n, *p: A[n].new(*X(*p)) - old(n, p)
        for i in A['ez'].points():
            j, k, l = i
            if axis and j == 0:
                if not m and all(inside(rng[a], p) for a, p in (('ex', i), ('ez', i), ('ez', (j, k, l - 1)))):
                    ceq(ctx, 'div E + J on the axis %r' % (i,), d('ex', *i) * (wr * 4) + (d('ez', *i) - d('ez', j, k, l - 1)) * wz, CNum(0) if m is not None else 0)
                    nd += 1
            elif all(inside(rng[a], p) for a, p in (('ex', i), ('ex', (j - 1, k, l)), ('ey', i), ('ez', i), ('ez', (j, k, l - 1)))):
                t = (d('ex', *i) * r(j + q) - d('ex', j - 1, k, l) * r(j - q)) * wr + (d('ez', *i) - d('ez', j, k, l - 1)) * wz * r(j)
                if m:
                    t = t - im(d('ey', *i)) * (wr * dr)
                ceq(ctx, 'div E + J mode %r %r' % (m, i), t, CNum(0) if m is not None else 0)
                nd += 1
        assert nd or not c['div']
    unchanged(ctx, A, rng, modes if m is not None else (0,))


def mk(v, name, div=1, dmax=0, axis=0, sp=spec, **kw):
    c = case(v, name, sp, **kw)
    c.cfg.update(div=div, dmax=dmax, axis=axis)
    return c


TH = TIER == 'thorough'
cases = [mk(3, 'Yee 3D', n=(2, 1, 1), g=1, s=(0, 0, 0)), mk(3, 'Yee 3D, staggered update ranges', n=(1, 1, 2), g=3, div=0),
         mk(23, 'Yee 2D', n=(2, 1, 2), g=1, s=(0, 0, 0)), mk(23, 'Yee 2D, staggered update ranges', n=(1, 0, 2), g=3, div=0)]
for o, n in (((2, 2, 2), (1, 1, 1)), ((4, 2, 2), (1, 1, 1)), ((2, 4, 2), (1, 1, 1)), ((2, 2, 4), (1, 1, 1)), ((4, 4, 4), (1, 1, 1))):
    h = max(o) // 2 - 1
    cases.append(mk(1, '3D order %d,%d,%d' % o, o=o, n=n, g=2 * h + 1 + (h == 0), s=(h, h, h)))
    cases.append(mk(1, '3D nodal order %d,%d,%d' % o, o=o, n=n, g=2 * h + 2 if max(o) < 4 else 3, s=(h, h, h), nodal=1, div=0))
cases.append(mk(1, '3D order 2,4,2, update range up to the guard ends', o=(2, 4, 2), n=(1, 1, 1), g=2, s=(2, 2, 2), div=-1))
for o in ((2, 2, 2), (4, 2, 2), (2, 2, 4), (4, 4, 4), (6, 2, 4)) + (((8, 8, 8),) if TH else ()):
    h = max(o) // 2 - 1
    cases.append(mk(21, '2D order %d,%d' % (o[0], o[2]), o=o, n=(1, 1, 2), g=2 * h + 1, s=(h, 0, h)))
    cases.append(mk(21, '2D nodal order %d,%d' % (o[0], o[2]), o=o, n=(2, 1, 1), g=2 * h + 3, s=(h, 0, h), nodal=1, div=0))
cases.append(mk(4, 'gradient of F, Yee 3D', sp=grad, n=(2, 1, 1), g=2, s=(0, 0, 0)))
cases.append(mk(4, 'gradient of F, Yee 3D, staggered update ranges', sp=grad, n=(1, 1, 2), g=3))
cases.append(mk(24, 'gradient of F, Yee 2D', sp=grad, n=(2, 1, 2), g=3, s=(1, 0, 1)))


def order(big, *small):
    return lambda w: [T.rel('<=', T.var('w%s1' % a, Q(1, 8), 8), T.var('w%s1' % big, Q(1, 8), 8)) for a in small]


for d, w in ((0, (Q(1, 2), Q(1, 3), Q(1, 4))), (1, (Q(1, 3), Q(3, 4), Q(1, 4))), (2, (Q(1, 5), Q(1, 3), Q(2, 5))), (0, (Q(1, 2),) * 3)):
    cases.append(mk(5, 'gradient of F, CKC 3D dt/dx=%s,%s,%s' % w, sp=grad, w=dict(zip('xyz', w)), g=3, n=(1, 1, 1), dmax=d))
for d in range(3):
    o = [a for i, a in enumerate('xyz') if i != d]
    cases.append(mk(5, 'gradient of F, CKC 3D any coefficients, %s largest' % 'xyz'[d], sp=grad, g=1, n=(0, 0, 0), s=(0, 0, 0), dmax=d, pre=order('xyz'[d], *o)))
for d in (0, 2):
    cases.append(mk(27, 'gradient of F, CKC 2D any coefficients, %s largest' % 'xyz'[d], sp=grad, g=3, n=(2, 1, 2), s=(1, 0, 1), dmax=d, pre=order('xyz'[d], 'zyx'[d])))
DR = T.var('dr', Q(1, 8), 8)
RM = T.var('rmin', Q(1, 4), 16)
for nm, v, m in (('RZ', 25, 1), ('RZ 3 modes', 26, 3)):
    cases.append(mk(v, nm + ' with the axis', sp=rz, axis=1, n=(2, 1, 1), g=1, s=(0, 0, 0), nm=m, rmin=0, dr=DR))
    cases.append(mk(v, nm + ' annulus', sp=rz, n=(2, 1, 1), g=1, s=(0, 0, 0), nm=m, rmin=RM, dr=DR))
    cases.append(mk(v, nm + ' staggered update ranges', sp=rz, n=(2, 1, 2), g=3, s=(1, 0, 1), nm=m, rmin=RM, dr=Q(1, 2), div=0))
for om in OMP:
    cases.append(mk(3, 'Yee 3D', n=(1, 1, 1), g=1, s=(0, 0, 0), div=0, omp=om))
    cases.append(mk(1, '3D order 4,2,4', o=(4, 2, 4), n=(1, 0, 1), g=2, s=(0, 0, 0), div=0, omp=om))
    cases.append(mk(21, '2D order 4,4', o=(4, 2, 4), n=(1, 0, 1), g=3, s=(0, 0, 0), div=0, omp=om))
    cases.append(mk(23, 'Yee 2D', n=(2, 1, 2), g=1, s=(0, 0, 0), div=0, omp=om))
    cases.append(mk(4, 'gradient of F, Yee 3D', sp=grad, n=(1, 1, 1), g=2, s=(0, 0, 0), omp=om))
    cases.append(mk(24, 'gradient of F, Yee 2D', sp=grad, n=(1, 1, 1), g=2, s=(0, 0, 0), omp=om))
    cases.append(mk(5, 'gradient of F, CKC 3D', sp=grad, w=dict(zip('xyz', (Q(1, 2), Q(1, 3), Q(1, 4)))), g=2, n=(1, 1, 1), s=(0, 0, 0), omp=om))
    cases.append(mk(27, 'gradient of F, CKC 2D', sp=grad, g=2, n=(1, 1, 1), s=(0, 0, 0), pre=order('x', 'z'), omp=om))
    for nm, v, m in (('RZ', 25, 1), ('RZ 3 modes', 26, 3)):
        cases.append(mk(v, nm + ' with the axis', sp=rz, axis=1, n=(2, 1, 1), g=1, s=(0, 0, 0), nm=m, rmin=0, dr=DR, omp=om))
main('C10', cases, assumptions=['floating point is read as exact real arithmetic'], outside='grids above 2 cells per direction, orders above 6 (8 thorough), the truncated stencil at the very end of the guard cells')
