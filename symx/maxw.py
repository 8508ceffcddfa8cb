"""shared by the field-solver checks: access to the arrays of glue/c09.F90"""
from . import *
from .build import c_obj
from . import terms as T
B = FBuild()
P = B.prog('c09', 'c09.F90')
BO = FBuild(openmp=True)
PO = BO.prog('c09o', 'c09.F90', entry='drv_c09_', more=[c_obj('gomp.c')])
OMP = [(t, o) for t in (2, 3) for o in (0, 1, 2)]      # threads, order of the threads between barriers
COMP = ('ex', 'ey', 'ez', 'bx', 'by', 'bz', 'jx', 'jy', 'jz', 'f')
NORD = (1, 11, 21, 31)
TWO = lambda v: v >= 20
CX = lambda v: v in (26, 36)


def dims(cfg):
    n = [cfg['nx'], 0 if TWO(cfg['variant']) else cfg['ny'], cfg['nz']]
    lo, hi = {}, {}
    for c in range(1, 11):
        for d in range(1, 4):
            if cfg['variant'] in NORD:
                a, b = -cfg['g'], n[d - 1] + cfg['g']
            else:
                a, b = -cfg['g'] - (c + d) % 2, n[d - 1] + cfg['g'] + c * d % 2
            if TWO(cfg['variant']) and d == 2:
                a, b = 0, 0
            lo[COMP[c - 1], d - 1], hi[COMP[c - 1], d - 1] = a, b
    return n, lo, hi


class Arr:
    """old and new values of one component; index (j, k, l[, mode])"""

    def __init__(self, ctx, name):
        self.ctx, self.name = ctx, name
        self.n, lo, hi = dims(ctx.cfg)
        self.lo = [lo[name, d] for d in range(3)]
        self.hi = [hi[name, d] for d in range(3)]
        self.cx = CX(ctx.cfg['variant'])
        self._out = None

    def has(self, *i):
        return all(self.lo[d] <= i[d] <= self.hi[d] for d in range(3))

    def idx(self, i):
        assert self.has(*i[:3]), (self.name, i, self.lo, self.hi)
        m = i[3] if len(i) > 3 else 0
        w = [self.hi[d] - self.lo[d] + 1 for d in range(3)]
        return (i[0] - self.lo[0]) + w[0] * ((i[1] - self.lo[1]) + w[1] * ((i[2] - self.lo[2]) + w[2] * m))

    def old(self, *i):
        k = self.idx(i)
        if self.cx:
            return CNum(self.ctx.sym(self.name, 2 * k + 1), self.ctx.sym(self.name, 2 * k + 2))
        return self.ctx.sym(self.name, k + 1)

    def new(self, *i):
        k = self.idx(i)
        if self._out is None:
            self._out = self.ctx.out(self.name)
        if self.cx:
            return CNum(self._out[2 * k], self._out[2 * k + 1])
        return self._out[k]

    def points(self):
        for l in range(self.lo[2], self.hi[2] + 1):
            for k in range(self.lo[1], self.hi[1] + 1):
                for j in range(self.lo[0], self.hi[0] + 1):
                    yield j, k, l


class CNum:
    """complex number of two expressions"""

    def __init__(self, re, im=0):
        self.re, self.im = re, im

    @staticmethod
    def of(x):
        return x if isinstance(x, CNum) else CNum(x, 0)

    def __add__(self, o):
        o = CNum.of(o)
        return CNum(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __neg__(self):
        return CNum(-self.re, -self.im)

    def __sub__(self, o):
        return self + (-CNum.of(o))

    def __rsub__(self, o):
        return CNum.of(o) + (-self)

    def __mul__(self, o):
        if isinstance(o, CNum):
            return CNum(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
        return CNum(self.re * o, self.im * o)
    __rmul__ = __mul__

    def timesi(self):
        return CNum(-self.im, self.re)

    def __truediv__(self, o):
        return CNum(self.re / o, self.im / o)


def ceq(ctx, label, a, b, **kw):
    if isinstance(a, CNum) or isinstance(b, CNum):
        a, b = CNum.of(a), CNum.of(b)
        ctx.eq(label + ' re', a.re, b.re, **kw)
        ctx.eq(label + ' im', a.im, b.im, **kw)
    else:
        ctx.eq(label, a, b, **kw)


def ranges(cfg):
    """update range of the three components: {component: (lo, hi)}"""
    n = dims(cfg)[0]
    s = [cfg['sx'], cfg['sy'], cfg['sz']]
    v = cfg['variant']
    pre = 'e' if v % 20 < 10 else 'b'
    r = {}
    for c in (1, 2, 3):
        if v in NORD:
            lo, hi = [-x for x in s], [n[d] + s[d] for d in range(3)]
        else:
            lo, hi = [-((c + 2 * d) % 3) * s[d - 1] for d in (1, 2, 3)], [n[d - 1] + ((c + d) % 3) * s[d - 1] for d in (1, 2, 3)]
            if v in (25, 26, 35, 36):
                lo = [max(x, 0) for x in lo]
        if TWO(v):
            lo[1], hi[1] = 0, 0
        r[pre + 'xyz'[c - 1]] = (lo, hi)
    return r


def inside(r, i):
    return all(r[0][d] <= i[d] <= r[1][d] for d in range(3))


def case(v, name, spec, n=(1, 1, 1), g=1, o=(2, 2, 2), s=(1, 1, 1), nodal=0, nm=1, w=None, rmin=None, dr=None, omp=None, **kw):
    cfg = dict(variant=v, nx=n[0], ny=n[1], nz=n[2], g=g, ox=o[0], oy=o[1], oz=o[2], sx=s[0], sy=s[1], sz=s[2], nodal=nodal, nmodes=nm)
    if omp:
        cfg.update(thr=omp[0], ord=omp[1])
        name += ', %d threads order %d' % omp
    w = w or {}
    inp = {c: (lambda i: (-4, 4)) for c in COMP}
    for a in 'xyz':
        inp['w' + a] = (lambda a: lambda i: w[a] if a in w else T.var('w%s%d' % (a, i), Q(1, 8), 8))(a)
    inp['mudt'] = T.var('mudt', Q(1, 8), 8)
    inp['rmin'] = 0 if rmin is None else rmin
    inp['dr'] = 1 if dr is None else dr
    return Case(name, PO if omp else P, cfg, inp, spec, bounds='grid %dx%dx%d cells, %d guard cells, every field value%s symbolic' % (n[0], n[1], n[2], g, '' if w else ' and coefficient'), **kw)


# ------------------------------------------------------------------ difference operators
def ckc(ctx):
    """weights of the Cole-Karkkainen-Cowan smoothed difference along d: {transverse offset: weight}, from the coefficients dt/dx of the case"""
    cfg = ctx.cfg
    w = [ctx.sym('w' + a, 1) for a in 'xyz']
    dl = w['xyz'.index('xyz'[cfg['dmax']])]
    q = lambda a, b: (a / b if ctx.native else Q(a, b))
    if TWO(cfg['variant']):
        rx, rz = (w[0] / dl) ** 2, (w[2] / dl) ** 2
        r = {0: {}, 2: {}, 1: {(0, 0, 0): 0}}
        for d, t, rt in ((0, 2, rz), (2, 0, rx)):
            b = q(1, 8) * rt
            for s in (-1, 1):
                r[d][tuple(s if a == t else 0 for a in range(3))] = b
            r[d][0, 0, 0] = 1 - 2 * b
        return r
    R = [(a / dl) ** 2 for a in w]
    den = R[1] * R[2] + R[2] * R[0] + R[0] * R[1]
    beta = q(1, 8) * (1 - R[0] * R[1] * R[2] / den)
    out = {}
    for d in range(3):
        a, b = [e for e in range(3) if e != d]
        g = R[a] * R[b] * (q(1, 16) - q(1, 8) * R[a] * R[b] / den)
        ba, bb = R[a] * beta, R[b] * beta
        o = {}
        for i in (-1, 0, 1):
            for j in (-1, 0, 1):
                t = [0, 0, 0]
                t[a], t[b] = i, j
                o[tuple(t)] = g if i and j else ba if i else bb if j else 1 - 2 * ba - 2 * bb - 4 * g
        out[d] = o
    return out


class Diff:
    """scaled differences of the scheme; up: evaluated half a cell above the lower point (nodal grids: centred)"""

    def __init__(self, ctx, smooth=False):
        self.ctx = ctx
        c = ctx.cfg
        self.two = TWO(c['variant'])
        self.ist = 0 if c['nodal'] else 1
        self.w = [[ctx.sym('w' + a, m) for m in range(1, c['o' + a] // 2 + 1)] for a in 'xyz']
        self.sm = ckc(ctx) if smooth else None

    def terms(self, d, i, up):
        r = []
        if self.two and d == 1:
            return r
        for m, w in enumerate(self.w[d], 1):
            a, b = list(i), list(i)
            if up:
                a[d] += m
                b[d] += self.ist - m
            else:
                a[d] += m - self.ist
                b[d] -= m
            for o, s in (self.sm[d].items() if self.sm else (((0, 0, 0), 1),)):
                r.append((tuple(x + y for x, y in zip(a, o)), w * s))
                r.append((tuple(x + y for x, y in zip(b, o)), -(w * s)))
        return r

    def __call__(self, val, d, i, up):
        t = 0
        for p, w in self.terms(d, i, up):
            t = t + val(*p, *i[3:]) * w
        return t

    def fits(self, arr, d, i, up):
        if self.ctx.cfg['variant'] in (1, 11):      # these routines shorten the stencil symmetrically near the ends of the array
            return len(self.w[d]) <= min(i[d] - arr.lo[d], arr.hi[d] - i[d])
        return all(arr.has(*p) for p, w in self.terms(d, i[:3], up))


def curl_terms(c):
    """component c of a curl: [(sign, axis of the derivative, component of the field)]"""
    return [(1, (c + 1) % 3, (c + 2) % 3), (-1, (c + 2) % 3, (c + 1) % 3)]


def unchanged(ctx, A, rng, modes=(0,)):
    for name in ('ex', 'ey', 'ez', 'bx', 'by', 'bz'):
        a = A[name]
        for i in a.points():
            if name in rng and inside(rng[name], i):
                continue
            for m in modes:
                ceq(ctx, '%s%r outside the update range' % (name, i), a.new(*i, m), a.old(*i, m))
