"""shared by C06 (momentum), C07 (position, energy), C08 (radiation reaction)"""
import math
from . import *
from . import terms as T
CL = 299792458
B = FBuild()
P = B.prog('c06', 'c06.F90')
NAMES = {1: 'boris', 2: 'rr S09', 3: 'rr B08', 4: 'rr LL', 5: 'boris block', 6: 'epush_v', 7: 'bpush_v', 8: 'set_gamma', 9: 'vay full', 10: 'vay first half', 11: 'vay second half',
         12: 'pushxyz', 13: 'pushxz', 14: 'push2dxz', 15: 'kin_energy', 16: 'vay 1+2', 17: 'split boris'}
AX = 'xyz'
RANGE = dict(ux=9e8, uy=9e8, uz=9e8, ex=1e12, ey=1e12, ez=1e12, bx=4000, by=4000, bz=4000, oex=1e12, oey=1e12, oez=1e12, obx=4000, oby=4000, obz=4000, x=1, y=1, z=1)
FIXV = dict(ux=(3 * 10**8, -10**8, 2 * 10**8), uy=(-2 * 10**8, 0, 10**8), uz=(10**8, 4 * 10**8, -10**8),
            ex=(10**11, -3 * 10**11, 0), ey=(2 * 10**11, 10**11, -10**11), ez=(-10**11, 4 * 10**11, 10**10),
            bx=(300, -1000, 200), by=(-700, 100, 0), bz=(500, 400, -800),
            oex=(2 * 10**11, 10**11, 0), oey=(10**11, 10**11, 10**11), oez=(-10**11, 10**11, 3 * 10**10),
            obx=(100, 200, 300), oby=(0, 100, -300), obz=(50, -40, 800), x=(Q(1, 3), Q(1, 7), Q(2, 5)), y=(0, 1, -1), z=(2, Q(1, 9), 0), gi=(Q(3, 5), Q(12, 13), Q(4, 5)))


def vec(ctx, n, i):
    return [ctx.sym(n + a, i) for a in AX]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def lc(*ts):
    """sum of coefficient*vector"""
    return [sum(c * v[k] for c, v in ts[1:]) + ts[0][0] * ts[0][1][k] for k in range(3)]


def one(ctx):
    return 1.0 if ctx.native else Q(1)


def gamma(ctx, u):
    return ctx.sqrt(1 + dot(u, u) * (one(ctx) / CL ** 2))


def boris(ctx, u, E, Bf, k):
    """rotation form with k = q dt/(2m)"""
    um = lc((one(ctx), u), (k, E))
    t = [k * b / gamma(ctx, um) for b in Bf]
    s = 2 / (1 + dot(t, t))
    up = lc((one(ctx), um), (s, cross(lc((one(ctx), um), (one(ctx), cross(um, t))), t)))
    return lc((one(ctx), up), (k, E))


def mk(v, sym, np=1, at=1, lvect=2, spec=None, tag='', rng=None, fixed={}, **kw):
    """sym: which quantities of particle `at` (and of q, m, dt) are symbolic"""
    def val(n):
        def f(i):
            if n in sym and i == at:
                r = (rng or {}).get(n) or RANGE.get(n)
                if n == 'gi':
                    return T.var('gi', Q(1, 1000), 1)
                return T.var('%s' % n, -int(r), int(r)) if not isinstance(r, tuple) else T.var(n, *r)
            if n in fixed and i == at:
                return Q(fixed[n])
            return Q(FIXV[n][(i + (0 if i != at else 2)) % 3])
        return f
    inp = {n: val(n) for n in FIXV}
    qm = dict(q=(-2, 2, -1), m=(Q(1, 4), 8, 1), dt=(Q(1, 10), 4, 1))
    Cq, Cm, Ct = Q('1.602176634e-19'), Q('9.1093837e-31'), Q(10) ** -16
    base = dict(q=Cq, m=Cm, dt=Ct)
    for k, (lo, hi, d) in qm.items():
        inp[k] = T.var('n' + k, lo, hi) * base[k] if k in sym else base[k] * d
    inp['ppid'] = (1, 10**6) if 'ppid' in sym else Q(7)
    if v in (2, 3, 4):
        inp['q'] = T.var('nqp', Q(1, 4), 2) * Cq if 'q' in sym else base['q']
    nm = '%s np=%d sym=%d%s (%s)%s' % (NAMES[v], np, at, ' lvect=%d' % lvect if v == 5 else '', ' '.join(sym), tag)
    return Case(nm, P, dict(variant=v, np=np, lvect=lvect), inp, spec, div0='ignore' if v == 3 else 'report', bounds='%d particle(s), symbolic: %s of particle %d' % (np, ', '.join(sym), at), **kw)


def unchanged(ctx, names, i):
    for n in names:
        ctx.eq('%s(%d) untouched' % (n, i), ctx.out(n)[i - 1], ctx.sym(n, i))
