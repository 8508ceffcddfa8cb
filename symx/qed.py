"""Physics of the QED library in terms of exact constants; specification helpers shared by the Q checks."""
import math
from fractions import Fraction as Q
import mpmath
from . import terms as T, build, lib

# CODATA values the library documents (exact decimals)
ME = Q('9.10938356e-31')
QE = Q('1.6021766208e-19')
CL = Q(299792458)
HB = Q('1.054571800e-34')
EPS0 = Q('8.854187817e-12')
ALPHA = Q('0.0072973525664')
PI = T.PI
RE = QE ** 2 / (4 * PI * EPS0 * ME * CL ** 2)
TAUE = RE / CL
ES_SI = ME ** 2 * CL ** 3 / (QE * HB)


class Units:
    pass


def units(si):
    u = Units()
    u.si = si
    u.tag = 'SI' if si else 'normalized'
    if si:
        u.c, u.m, u.Es = CL, ME, ES_SI
        u.bw = ALPHA * ME * CL ** 2 / HB * ME * CL ** 2
        u.qs = ALPHA ** 2 / TAUE * ME * CL ** 2
        u.sw = QE ** 2 * ES_SI ** 2 / (4 * PI ** 2 * HB ** 2 * CL)
    else:
        u.c = u.m = Q(1)
        u.Es = ME * CL / (HB * 2 * PI)
        u.bw = ALPHA * ME * CL ** 2 / HB / (2 * PI * CL)
        u.qs = ALPHA ** 2 / TAUE / (2 * PI * CL)
        u.sw = QE ** 2 * ES_SI ** 2 / (4 * PI ** 2 * HB ** 2 * CL) / (16 * PI ** 4 * CL)
    return u


SI, NORM = units(True), units(False)
G13 = lib.mp2q(mpmath.gamma(mpmath.mpf(1) / 3))
SQ3 = T.qsqrt(Q(3))
EA, EB = Q('0.16'), Q(4, 3)


def register():
    h = (1, 2, Q(1, 2))
    T.register([ME, CL, ES_SI], [range(-3, 4), range(-4, 5), range(-2, 3)], h)
    T.register([NORM.Es], [range(-4, 5)], h)
    T.register([G13], [(1, 2, -1)], (1, Q(1, 2), EA / 2, EA))
    T.register([SQ3, PI], [(0, 1, -1), range(-2, 3)], (1, 2, Q(1, 2), Q(1, 3), Q(3), EA, EA / (2 * EB), EA / 2 / EB))
    T.OVER[0] = True


def coef(*names):
    """the rate coefficients a check needs (in SI units 'bw' and 'qs' agree to 1e-10, beyond single precision: only one at a time)"""
    for u in (SI, NORM):
        for n in names:
            T.register([getattr(u, n)], [(1, -1)], (1, 2, Q(1, 2)))


register()
# C++ flags of the four builds
BUILDS = [('si', 'double', ['PXRMP_USE_SI_UNITS', 'REAL=double']), ('nu', 'double', ['PXRMP_USE_NORMALIZED_UNITS', 'REAL=double']),
          ('sif', 'float', ['PXRMP_USE_SI_UNITS', 'REAL=float']), ('nuf', 'float', ['PXRMP_USE_NORMALIZED_UNITS', 'REAL=float'])]


def of(tag):
    return SI if tag.startswith('si') else NORM


def progs(name, src, which=('si', 'nu', 'sif', 'nuf'), defs=(), natdefs=None, **kw):
    """{tag: Prog} for the requested builds, compiled in parallel"""
    from concurrent.futures import ThreadPoolExecutor
    natdefs = defs if natdefs is None else natdefs
    B = {t: d for t, r, d in BUILDS}

    def one(t):
        return t, build.cxxprog(name + t, src, defs=list(B[t]) + list(defs), natdefs=list(B[t]) + list(natdefs), **kw)
    with ThreadPoolExecutor(4) as ex:
        return dict(ex.map(one, which))


# ---- arithmetic that works for engine terms and native floats

class V3:
    def __init__(s, x, y, z):
        s.v = (x, y, z)

    def __getitem__(s, i):
        return s.v[i]

    def __add__(s, o):
        return V3(*[a + b for a, b in zip(s.v, o.v)])

    def __sub__(s, o):
        return V3(*[a - b for a, b in zip(s.v, o.v)])

    def __mul__(s, k):
        return V3(*[a * k for a in s.v])

    def dot(s, o):
        return s[0] * o[0] + s[1] * o[1] + s[2] * o[2]

    def cross(s, o):
        return V3(s[1] * o[2] - s[2] * o[1], s[2] * o[0] - s[0] * o[2], s[0] * o[1] - s[1] * o[0])

    def n2(s):
        return s.dot(s)


def k(ctx, q):
    """a constant in the arithmetic of the context"""
    return float(q) if ctx.native else T.lift(q)


def chi2_photon(ctx, u, p, E, B, lam):
    """square of the photon parameter: |p|^2 |E_perp + c n x B|^2 / (m c Es lambda)^2, for p != 0 ; n = p/|p|
    = (|p|^2 E^2 - (p.E)^2 + 2 c |p| E.(p x B) + c^2 |p x B|^2) / (m c Es lambda)^2"""
    c = k(ctx, u.c)
    pn = ctx.sqrt(p.n2())
    pxb = p.cross(B)
    num = p.n2() * E.n2() - p.dot(E) * p.dot(E) + k(ctx, 2) * c * pn * E.dot(pxb) + c * c * pxb.n2()
    d = k(ctx, u.m * u.c * u.Es)
    if not u.si:
        d = d * lam
    return num / (d * d)


def chi2_lepton(ctx, u, p, E, B, lam):
    """square of the lepton parameter |F^{mu nu} p_nu| / (m c Es): (gamma E + c u x B)^2 - (u.E)^2 over (Es lambda)^2, u = p/(m c)"""
    c = k(ctx, u.c)
    uu = p * k(ctx, 1 / (u.m * u.c))
    g = ctx.sqrt(uu.n2() + k(ctx, 1))
    w = E * g + uu.cross(B) * c
    d = k(ctx, u.Es)
    if not u.si:
        d = d * lam
    return (w.n2() - uu.dot(E) * uu.dot(E)) / (d * d)


# ---- tables

def segments(ctx, n, lo, hi, D, x):
    """(label, possible, value) of the piecewise linear table with n equispaced nodes on [lo, hi], under the conditions of each segment"""
    h = (hi - lo) * k(ctx, Q(1, n - 1))
    for i in range(n - 1):
        a = lo + h * k(ctx, Q(i))
        conds = ([('>=', x, a)] if i else []) + ([('<', x, a + h)] if i < n - 2 else [])
        with ctx.when(*conds) as ok:
            if ok:
                yield 'segment %d' % i, D(i) + (D(i + 1) - D(i)) * (x - a) / h


def clamp(ctx, x, lo, hi):
    """cases of x clamped to [lo, hi]"""
    for conds, v in (((('<=', x, lo),), lo), ((('>', x, lo), ('<', x, hi)), x), ((('>=', x, hi),), hi)):
        with ctx.when(*conds) as ok:
            if ok:
                yield v
