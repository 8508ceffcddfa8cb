"""x86-64 symbolic machine: basic blocks are translated to Python functions on first use."""
import re, struct, math
from . import terms as T
from .terms import Q, Node, Special
from .mem import Mem, MemError, UNDEF, F32, Pair, Undef, Partial

M64 = (1 << 64) - 1
M32 = (1 << 32) - 1
SB = {64: 1 << 63, 32: 1 << 31, 16: 1 << 15, 8: 1 << 7}
MK = {64: M64, 32: M32, 16: 0xffff, 8: 0xff}


class Fork(Exception):
    """several alternatives are possible: list of (key, value, cond)"""

    def __init__(self, alts):
        self.alts = alts


class Stop(Exception):
    """end of the path"""


class Fault(Exception):
    """the program did something it must not do"""

    def __init__(self, kind, msg):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind, self.msg = kind, msg


class Block(Exception):
    """the running rank must wait (MPI)"""


class Unsupported(Exception):
    pass


CUR = [None]     # running context (World), for decide() from operator overloading


def sgn(v, w):
    return v - (1 << w) if v & SB[w] else v


class SI:
    """symbolic integer: node is integer valued; signed value within width w"""
    __slots__ = ('n', 'w')

    def __init__(self, n, w):
        self.n, self.w = n, w

    def __repr__(self):
        return 'SI%d(%s)' % (self.w, self.n)

    def subobj(self, n):
        return mksi(self.n, n * 8)

    def _o(self, o):
        if o.__class__ is int:
            if o > M32 and self.w == 32:
                return Q(sgn(o & M64, 64))
            return Q(sgn(o & MK[self.w], self.w))
        if o.__class__ is SI:
            return o.n
        return None

    def __add__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        return SI(T.add(self.n, o), 64 if o.__class__ is Q and abs(o) > M32 else self.w)
    __radd__ = __add__

    def __sub__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        return SI(T.sub(self.n, o), self.w)

    def __rsub__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        return SI(T.sub(o, self.n), self.w)

    def __mul__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        return SI(T.mul(self.n, o), self.w)
    __rmul__ = __mul__

    def __neg__(self):
        return SI(T.neg(self.n), self.w)

    def __and__(self, m):
        if m == M64:
            return mksi(self.n, 64)
        if m == M32:
            return mksi(self.n, 32)
        if m == 0xff or m == 0xffff:
            return conc(self) & m
        return NotImplemented

    def __lshift__(self, k):
        return SI(T.mul(self.n, Q(1 << k)), self.w)


def mksi(n, w):
    """wrap a node, constant-folding"""
    if n.__class__ is Q:
        return int(n) & MK[w]
    p = T.poly(n)
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return int(p[()]) & MK[w]
    lo, hi = T.interval(p)
    if lo is None or hi is None or lo < -SB[w] or hi >= (2 * SB[w] if w == 32 else SB[w]):
        c = CUR[0]
        if c is not None:
            c.fits(n, w)
    return SI(n, w)


def conc(v):
    """known integer value of v (forks over the feasible values)"""
    if v.__class__ is int:
        return v
    if v.__class__ is SI:
        return CUR[0].concretise(v.n) & MK[v.w]
    if v is UNDEF or v.__class__ is Partial:
        raise Fault('uninit', 'an uninitialised value decides control flow or an address')
    if v.__class__ is Q or v.__class__ is Special:
        return q2b(v)
    if v.__class__ is F32 and (v.v.__class__ is Q or v.v.__class__ is Special):
        return T.q2bits32(v.v)
    if v.__class__ is Pair:
        return conc(v.lo) | (conc(v.hi) << 32)
    raise Unsupported('integer use of %r' % (v,))


def q2b(v):
    if v.__class__ is Special:
        return struct.unpack('<Q', struct.pack('<d', v))[0]
    return T.q2bits(v)


def addr(v):
    if v.__class__ is int:
        return v & M64
    return conc(v) & M64


# ---------------------------------------------------------------- floats

b2q, b2q32 = T.bits2q, T.bits2q32


def F(v):
    if v.__class__ is int:
        return b2q(v)
    if v.__class__ is Pair:
        return b2q(conc(v))
    if v.__class__ is F32:
        return b2q(conc(v))
    if v.__class__ is SI:
        raise Unsupported('integer bits used as a double')
    return v


def G(v):
    """single"""
    if v.__class__ is int:
        return b2q32(v & M32)
    if v.__class__ is F32:
        return v.v
    if v.__class__ is Pair:
        return G(v.lo)
    if v is UNDEF:
        return v
    if v.__class__ is Q:
        return b2q32(T.q2bits(v) & M32)
    raise Unsupported('single from %r' % (v,))


def fadd(a, b):
    return T.add(F(a), F(b))


def fsub(a, b):
    return T.sub(F(a), F(b))


def fmul(a, b):
    return T.mul(F(a), F(b))


def fdiv(a, b):
    return T.div(F(a), F(b))


def fsqrt(a):
    return T.sqrt(F(a))


def gadd(a, b):
    return F32(T.add(G(a), G(b)))


def gsub(a, b):
    return F32(T.sub(G(a), G(b)))


def gmul(a, b):
    return F32(T.mul(G(a), G(b)))


def gdiv(a, b):
    return F32(T.div(G(a), G(b)))


def gsqrt(a):
    return F32(T.sqrt(G(a)))


def decide(c):
    if c is True or c is False:
        return c
    return CUR[0].decide(c)


def nan(v):
    return isinstance(v, float) and v != v


def _min(a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    return a if decide(T.rel('<', a, b)) else b


def _max(a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    return a if decide(T.rel('>', a, b)) else b


def fmin(a, b):
    return _min(F(a), F(b))


def fmax(a, b):
    return _max(F(a), F(b))


def gmin(a, b):
    return F32(_min(G(a), G(b)))


def gmax(a, b):
    return F32(_max(G(a), G(b)))


ABSM = (1 << 63) - 1
SGNM = 1 << 63


def lane_and(a, b):
    if a.__class__ is int and b.__class__ is int:
        return a & b
    if a is UNDEF or b is UNDEF:
        if a.__class__ is int and a == 0 or b.__class__ is int and b == 0:
            return 0
        return UNDEF
    if b.__class__ is not int:
        a, b = b, a
    if b.__class__ is int:
        if b == M64:
            return a
        if b == 0:
            return 0
        if a.__class__ is F32 or a.__class__ is Pair:
            g = G(a)
            hi = a.hi if a.__class__ is Pair else 0
            if b & M32 == 0x7fffffff:
                return F32(g if decide(T.rel('>=', g, Q(0))) else T.neg(g))
            if b & M32 == 0x80000000:
                return F32(Q(0)) if decide(T.rel('>=', g, Q(0))) else 0x80000000
            if b & M32 == 0:
                return 0
            if b & M32 == M32:
                return a
        if a.__class__ is Q or a.__class__ is Node or a.__class__ is Special:
            if b == ABSM:
                if a.__class__ is Special:
                    return Special(abs(a))
                return a if decide(T.rel('>=', a, Q(0))) else T.neg(a)
            if b == SGNM:
                return 0 if decide(T.rel('>=', a, Q(0))) else SGNM
            if a.__class__ is Q:
                return T.q2bits(a) & b
    if a.__class__ is Q and b.__class__ is Q:
        return T.q2bits(a) & T.q2bits(b)
    raise Unsupported('and of %r and %r' % (a, b))


def lane_or(a, b):
    if a.__class__ is int and b.__class__ is int:
        return a | b
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if b.__class__ is not int:
        a, b = b, a
    if b.__class__ is int:
        if b == 0:
            return a
        if b == SGNM and a.__class__ in (Q, Node):
            return T.neg(a) if decide(T.rel('>=', a, Q(0))) else a
        if b == 0x80000000 and a.__class__ is F32:
            return F32(T.neg(a.v)) if decide(T.rel('>=', a.v, Q(0))) else a
    if a.__class__ is Q and a == 0:
        return b
    if b.__class__ is Q and b == 0:
        return a
    if a.__class__ is F32 and b.__class__ is F32 and b.v.__class__ is Q and b.v == 0:
        return a
    if a.__class__ is F32 and b.__class__ is F32 and a.v.__class__ is Q and a.v == 0:
        return b
    if a.__class__ in (Q, int) and b.__class__ in (Q, int):
        return (a if a.__class__ is int else T.q2bits(a)) | (b if b.__class__ is int else T.q2bits(b))
    raise Unsupported('or of %r and %r' % (a, b))


def lane_xor(a, b):
    if a.__class__ is int and b.__class__ is int:
        return a ^ b
    if a is b:
        return 0
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if b.__class__ is not int:
        a, b = b, a
    if b.__class__ is int:
        if b == 0:
            return a
        if b == SGNM:
            return T.neg(F(a))
        if b == 0x80000000:
            return F32(T.neg(G(a)))
        if a.__class__ is Q:
            return T.q2bits(a) ^ b
    raise Unsupported('xor of %r and %r' % (a, b))


def lane_andn(a, b):
    """~a & b"""
    if a.__class__ is Q:
        a = T.q2bits(a)
    if a.__class__ is int:
        return lane_and((~a) & M64, b)
    raise Unsupported('andn')


def trunc_int(q):
    n = abs(q.numerator) // q.denominator
    return n if q >= 0 else -n


def cvtt(v, w):
    if v.__class__ is Q:
        r = trunc_int(v)
        if -SB[w] <= r < SB[w]:
            return r & MK[w]
        return SB[w]
    if v is UNDEF:
        return UNDEF
    if v.__class__ is Node:
        return CUR[0].trunc(v, w)
    return SB[w]


def cvtr(v, w):
    """round to nearest even (cvtsd2si)"""
    if v.__class__ is Q:
        return int(round(v)) & MK[w]
    raise Unsupported('cvtsd2si of a symbolic value')


def i2f(v, w):
    if v.__class__ is int:
        return Q(sgn(v & MK[w], w))
    if v.__class__ is SI:
        return v.n
    if v is UNDEF:
        return v
    return Q(sgn(conc(v), w))


def si_floordiv(n, k):
    """floor(n / k) as an integer node"""
    return CUR[0].floordiv(n, k)


def sar(v, k, w):
    if v.__class__ is int:
        return (sgn(v & MK[w], w) >> k) & MK[w]
    if v.__class__ is SI:
        if k == w - 1:
            return MK[w] if decide(T.rel('<', v.n, Q(0))) else 0
        return mksi(si_floordiv(v.n, 1 << k), w)
    if v is UNDEF:
        return v
    return sar(conc(v), k, w)


def shr(v, k, w):
    if v.__class__ is int:
        return (v & MK[w]) >> k
    if v.__class__ is Pair and k == 32 and w == 64:
        return v.hi
    if v is UNDEF:
        return v
    if v.__class__ is SI:
        if k == w - 1:
            return 1 if decide(T.rel('<', v.n, Q(0))) else 0
        if decide(T.rel('<', v.n, Q(0))):
            return (conc(v) & MK[w]) >> k
        return mksi(si_floordiv(v.n, 1 << k), w)
    return shr(conc(v), k, w)


def shl(v, k, w):
    if v.__class__ is int:
        return (v << k) & MK[w]
    if v.__class__ is SI:
        return mksi(T.mul(v.n, Q(1 << k)), w)
    if v is UNDEF:
        return v
    return shl(conc(v), k, w)


def land(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return a & b & MK[w]
    if a is UNDEF or b is UNDEF:
        if a == 0 or b == 0:
            return 0
        return UNDEF
    if a.__class__ is int:
        a, b = b, a
    if b.__class__ is int:
        b &= MK[w]
        if b == 0:
            return 0
        if b == MK[w]:
            return a & MK[w] if a.__class__ is SI else a
        if a.__class__ is SI and (b & (b + 1)) == 0:
            k = b + 1
            return mksi(T.sub(a.n, T.mul(Q(k), si_floordiv(a.n, k))), w)
        if a.__class__ is SI:
            nb = (~b) & MK[w]
            if nb & (nb + 1) == 0:   # clear low bits
                return mksi(T.mul(Q(nb + 1), si_floordiv(a.n, nb + 1)), w)
        if a.__class__ in (Q, Node, Special) and w == 64:
            return lane_and(a, b)
        if a.__class__ in (F32,) and w == 32:
            return lane_and(a, b)
    if a is b and a.__class__ is SI:
        return a
    return conc(a) & conc(b) & MK[w]


def lor(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a | b) & MK[w]
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a.__class__ is int and a == 0:
        return b
    if b.__class__ is int and b == 0:
        return a
    return (conc(a) | conc(b)) & MK[w]


def lxor(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a ^ b) & MK[w]
    if a is UNDEF or b is UNDEF:
        return UNDEF
    for x, y in ((a, b), (b, a)):
        if x.__class__ is SI and y.__class__ is int and y == MK[w]:
            return mksi(T.sub(Q(-1), x.n), w)
        if x.__class__ is int and x == 0:
            return y
    if w == 64 and (a.__class__ in (Q, Node) or b.__class__ in (Q, Node)):
        return lane_xor(a, b)
    return (conc(a) ^ conc(b)) & MK[w]


def lnot(a, w):
    if a.__class__ is int:
        return ~a & MK[w]
    if a.__class__ is SI:
        return mksi(T.sub(Q(-1), a.n), w)
    if a is UNDEF:
        return a
    return ~conc(a) & MK[w]


def iadd(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a + b) & MK[w]
    if a.__class__ in (SI, int) and b.__class__ in (SI, int):
        x = a.n if a.__class__ is SI else Q(sgn(a & MK[w], w))
        y = b.n if b.__class__ is SI else Q(sgn(b & MK[w], w))
        return mksi(T.add(x, y), w)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    return (conc(a) + conc(b)) & MK[w]


def isub(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a - b) & MK[w]
    if a.__class__ in (SI, int) and b.__class__ in (SI, int):
        x = a.n if a.__class__ is SI else Q(sgn(a & MK[w], w))
        y = b.n if b.__class__ is SI else Q(sgn(b & MK[w], w))
        return mksi(T.sub(x, y), w)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    return (conc(a) - conc(b)) & MK[w]


def imul(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a * b) & MK[w]
    if a.__class__ in (SI, int) and b.__class__ in (SI, int):
        x = a.n if a.__class__ is SI else Q(sgn(a & MK[w], w))
        y = b.n if b.__class__ is SI else Q(sgn(b & MK[w], w))
        return mksi(T.mul(x, y), w)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    return (conc(a) * conc(b)) & MK[w]


def si64(v):
    """read a register as 64 bits: a 32-bit symbolic result is zero-extended"""
    return v


def sext(v, f, t):
    if v.__class__ is int:
        return sgn(v & MK[f], f) & MK[t]
    if v.__class__ is SI:
        return SI(v.n, t)
    if v is UNDEF:
        return v
    return sgn(conc(v) & MK[f], f) & MK[t]


def r32(v):
    if v.__class__ is int:
        return v & M32
    if v.__class__ is SI:
        if v.w == 32:
            return v
        return mksi(v.n, 32)
    if v.__class__ is Pair:
        return v.lo
    if v.__class__ is F32 or v is UNDEF:
        return v
    return conc(v) & M32


def r64(v):
    if v.__class__ is SI and v.w == 32:
        lo, hi = T.interval(T.poly(v.n))
        if lo is not None and lo >= 0:
            return SI(v.n, 64)
        if decide(T.rel('>=', v.n, Q(0))):
            return SI(v.n, 64)
        return mksi(T.add(v.n, Q(1 << 32)), 64)
    return v


def divmod_(m, w, b, signed):
    R = m.R
    a = R[0]
    if w == 64:
        b = r64(b)
        a = r64(a)
    else:
        b = r32(b)
        a = r32(a)
    if a is UNDEF or b is UNDEF:
        raise Fault('uninit', 'division of an uninitialised value')
    if b.__class__ is SI:
        if decide(T.rel('==', b.n, Q(0))):
            raise Fault('div0', 'integer division by zero')
    if b.__class__ is SI:
        b = conc(b)
    if b == 0:
        raise Fault('div0', 'integer division by zero')
    if a.__class__ is SI:
        d = sgn(b & MK[w], w) if signed else b
        if decide(T.rel('>=', a.n, Q(0))):
            q = si_floordiv(a.n, abs(d))
        else:
            q = T.neg(si_floordiv(T.neg(a.n), abs(d)))
        r = T.sub(a.n, T.mul(Q(abs(d)), q))
        if d < 0:
            q = T.neg(q)
        R[0], R[2] = mksi(q, w), mksi(r, w)
        return
    a, b = conc(a), conc(b)
    d = conc(R[2]) & MK[w]
    full = (d << w) | (a & MK[w])
    if signed:
        full = sgn(full, 2 * w) if full >> (2 * w - 1) else full
        b = sgn(b & MK[w], w)
        q = abs(full) // abs(b)
        if (full < 0) != (b < 0):
            q = -q
        if not -SB[w] <= q < SB[w]:
            raise Fault('div0', 'integer division overflow')
        r = full - q * b
    else:
        b &= MK[w]
        q, r = divmod(full, b)
    R[0], R[2] = q & MK[w], r & MK[w]


SB[128] = 1 << 127
MK[128] = (1 << 128) - 1


def widemul(m, w, b, signed):
    """one-operand mul/imul"""
    R = m.R
    a = R[0]
    if w == 64:
        a, b = r64(a), r64(b)
    else:
        a, b = r32(a), r32(b)
    if a.__class__ is SI or b.__class__ is SI:
        x = a.n if a.__class__ is SI else Q(sgn(a & MK[w], w) if signed else a & MK[w])
        y = b.n if b.__class__ is SI else Q(sgn(b & MK[w], w) if signed else b & MK[w])
        n = T.mul(x, y)
        hi = si_floordiv(n, 1 << w)
        lo, h = T.interval(T.poly(n))
        if h is not None and lo is not None and -SB[w] <= lo and h < SB[w]:
            R[0] = mksi(n, w)
        else:
            R[0] = UNDEF
        R[2] = mksi(hi, w)
        m.f = ('u',)
        return
    a, b = conc(a), conc(b)
    p = sgn(a & MK[w], w) * sgn(b & MK[w], w) if signed else (a & MK[w]) * (b & MK[w])
    R[0] = p & MK[w]
    R[2] = (p >> w) & MK[w]
    m.f = ('m', (p >> w) != 0 if not signed else not -SB[w] <= p < SB[w])


# ---------------------------------------------------------------- conditions

def _nd(v, w, signed=True):
    if v.__class__ is SI:
        return v.n
    v = conc(v)
    return Q(sgn(v & MK[w], w))


def cc(m, c):
    """condition code -> bool (may fork)"""
    f = m.f
    k = f[0]
    if k == 'c':
        w, a, b = f[1], f[2], f[3]
        if a.__class__ is int and b.__class__ is int:
            if c == 'e':
                return a == b
            if c == 'ne':
                return a != b
            s = SB[w]
            if c == 'l':
                return (a ^ s) < (b ^ s)
            if c == 'ge':
                return (a ^ s) >= (b ^ s)
            if c == 'le':
                return (a ^ s) <= (b ^ s)
            if c == 'g':
                return (a ^ s) > (b ^ s)
            if c == 'b':
                return a < b
            if c == 'ae':
                return a >= b
            if c == 'be':
                return a <= b
            if c == 'a':
                return a > b
            r = (a - b) & MK[w]
            if c == 's':
                return bool(r & s)
            if c == 'ns':
                return not r & s
            if c == 'o':
                return bool(((a ^ b) & (a ^ r)) & s)
            if c == 'no':
                return not ((a ^ b) & (a ^ r)) & s
            raise Unsupported('cc ' + c)
        if a is UNDEF or b is UNDEF:
            raise Fault('uninit', 'a branch depends on an uninitialised value')
        if a.__class__ is SI or b.__class__ is SI:
            x, y = _nd(a, w), _nd(b, w)
            if c in ('b', 'ae', 'be', 'a'):
                # unsigned comparison
                nx = decide(T.rel('<', x, Q(0)))
                ny = decide(T.rel('<', y, Q(0)))
                if nx != ny:
                    return {'b': ny, 'ae': nx, 'be': ny, 'a': nx}[c]
                c = {'b': 'l', 'ae': 'ge', 'be': 'le', 'a': 'g'}[c]
            if c == 's':
                return decide(T.rel('<', T.sub(x, y), Q(0)))
            if c == 'ns':
                return decide(T.rel('>=', T.sub(x, y), Q(0)))
            if c in ('o', 'no'):
                raise Unsupported('overflow flag of a symbolic comparison')
            return decide(T.rel({'e': '==', 'ne': '!=', 'l': '<', 'ge': '>=', 'le': '<=', 'g': '>'}[c], x, y))
        if a.__class__ in (Q, Node) and b.__class__ is int:
            # bits of a double compared with an integer pattern
            if c in ('s', 'l') and b == 0:
                return decide(T.rel('<', a, Q(0)))
            if c in ('ns', 'ge') and b == 0:
                return decide(T.rel('>=', a, Q(0)))
        m.f = ('c', w, conc(a) & MK[w], conc(b) & MK[w])
        return cc(m, c)
    if k == 'f':
        a, b = f[1], f[2]
        if a is UNDEF or b is UNDEF:
            raise Fault('uninit', 'a branch depends on an uninitialised value')
        un = nan(a) or nan(b)
        if c == 'p':
            return un
        if c == 'np':
            return not un
        if un:
            return c in ('b', 'be', 'e')
        return decide(T.rel({'e': '==', 'ne': '!=', 'b': '<', 'ae': '>=', 'be': '<=', 'a': '>'}[c], a, b))
    if k == 'z':
        w, a = f[1], f[2]
        if a.__class__ is int:
            s = SB[w]
            if c == 'e':
                return a == 0
            if c == 'ne':
                return a != 0
            if c in ('s', 'l'):
                return bool(a & s)
            if c in ('ns', 'ge'):
                return not a & s
            if c == 'le':
                return a == 0 or bool(a & s)
            if c == 'g':
                return a != 0 and not a & s
            if c in ('b', 'o'):
                return False
            if c in ('ae', 'no'):
                return True
            if c == 'be':
                return a == 0
            if c == 'a':
                return a != 0
            raise Unsupported('cc ' + c)
        if a is UNDEF:
            raise Fault('uninit', 'a branch depends on an uninitialised value')
        if a.__class__ in (Q, Node) and w == 64 and c in ('s', 'ns', 'l', 'ge'):
            return decide(T.rel('<' if c in ('s', 'l') else '>=', a, Q(0)))
        if a.__class__ is SI:
            z = Q(0)
            if c in ('b', 'o'):
                return False
            if c in ('ae', 'no'):
                return True
            op = {'e': '==', 'ne': '!=', 's': '<', 'l': '<', 'ns': '>=', 'ge': '>=', 'le': '<=', 'g': '>', 'be': '==',
                  'a': '!='}[c]
            return decide(T.rel(op, a.n, z))
        m.f = ('z', w, conc(a) & MK[w])
        return cc(m, c)
    if k == 'a':
        w, a, b, r = f[1], f[2], f[3], f[4]
        if r.__class__ is int and a.__class__ is int and b.__class__ is int:
            s = SB[w]
            if c == 'b':
                return r < a
            if c == 'ae':
                return r >= a
            if c == 'o':
                return bool((~(a ^ b) & (a ^ r)) & s)
            if c == 'no':
                return not (~(a ^ b) & (a ^ r)) & s
            if c in ('e', 'ne', 's', 'ns'):
                m.f = ('z', w, r)
                return cc(m, c)
            o = bool((~(a ^ b) & (a ^ r)) & s)
            sf = bool(r & s)
            if c == 'l':
                return sf != o
            if c == 'ge':
                return sf == o
            if c == 'le':
                return r == 0 or sf != o
            if c == 'g':
                return r != 0 and sf == o
            if c == 'be':
                return r < a or r == 0
            if c == 'a':
                return not (r < a or r == 0)
        if c in ('e', 'ne', 's', 'ns', 'l', 'ge', 'le', 'g'):
            if r.__class__ is SI:
                m.f = ('z', w, r)
                return cc(m, c)
        m.f = ('a', w, conc(a) & MK[w], conc(b) & MK[w], conc(r) & MK[w])
        return cc(m, c)
    if k == 'm':
        if c in ('o', 'b'):
            return f[1]
        if c in ('no', 'ae'):
            return not f[1]
    raise Unsupported('condition %s on flags %r' % (c, f))


NEG = {'e': 'ne', 'ne': 'e', 'l': 'ge', 'ge': 'l', 'le': 'g', 'g': 'le', 'b': 'ae', 'ae': 'b', 'be': 'a', 'a': 'be',
       's': 'ns', 'ns': 's', 'p': 'np', 'np': 'p', 'o': 'no', 'no': 'o'}
CCN = {'z': 'e', 'nz': 'ne', 'nl': 'ge', 'nge': 'l', 'ng': 'le', 'nle': 'g', 'c': 'b', 'nc': 'ae', 'nb': 'ae',
       'nae': 'b', 'na': 'be', 'nbe': 'a', 'pe': 'p', 'po': 'np'}

# ---------------------------------------------------------------- translation

REGS = {}
for i, n in enumerate(['ax', 'cx', 'dx', 'bx', 'sp', 'bp', 'si', 'di']):
    REGS['r' + n] = (i, 64, 0)
    REGS['e' + n] = (i, 32, 0)
    REGS[n] = (i, 16, 0)
    REGS[n + 'l' if n in ('sp', 'bp', 'si', 'di') else n[0] + 'l'] = (i, 8, 0)
for i, n in enumerate(['ah', 'ch', 'dh', 'bh']):
    REGS[n] = (i, 8, 8)
for i in range(8, 16):
    REGS['r%d' % i] = (i, 64, 0)
    REGS['r%dd' % i] = (i, 32, 0)
    REGS['r%dw' % i] = (i, 16, 0)
    REGS['r%db' % i] = (i, 8, 0)

_memre = re.compile(r'^(?:(\w+) PTR )?(?:(\w\w):)?\[(.*)\]$')
PTRW = {'BYTE': 8, 'WORD': 16, 'DWORD': 32, 'QWORD': 64, 'XMMWORD': 128, 'TBYTE': 80}


class Op:
    __slots__ = ('k', 'i', 'w', 'sh', 'e', 'v')


def split_ops(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch == '[':
            d += 1
        elif ch == ']':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def parse_op(s, nextpc):
    o = Op()
    if s in REGS:
        o.k = 'r'
        o.i, o.w, o.sh = REGS[s]
        return o
    if s.startswith('xmm'):
        o.k = 'x'
        o.i = int(s[3:])
        o.w = 128
        return o
    m = _memre.match(s)
    if m:
        o.k = 'm'
        o.w = PTRW[m.group(1)] if m.group(1) else 0
        parts = re.findall(r'([+-]?)([^+-]+)', m.group(3))
        ex = []
        c = 0
        for sg, t in parts:
            if '*' in t:
                r, k = t.split('*')
                if r == 'riz':
                    continue
                ex.append('R[%d]*%s' % (REGS[r][0], k) if k != '1' else 'R[%d]' % REGS[r][0])
            elif t in REGS:
                ex.append('R[%d]' % REGS[t][0])
            elif t == 'rip':
                c += nextpc
            elif t == 'riz' or t == 'eiz':
                continue
            else:
                v = int(t, 16)
                if v >= 1 << 63:
                    v -= 1 << 64
                c += -v if sg == '-' else v
        if m.group(2) == 'fs':
            c += TLSBASE
        elif m.group(2) == 'ds' or m.group(2) is None:
            pass
        if c or not ex:
            ex.append('%d' % c if c >= 0 else '(%d)' % c)
        o.e = '+'.join(ex)
        return o
    if s == 'st' or s.startswith('st('):
        o.k = 's'
        o.i = 0 if s == 'st' else int(s[3])
        o.w = 80
        return o
    o.k = 'i'
    o.v = int(s, 16)
    o.w = 0
    return o


TLSBASE = 0x7e0000000000


class Gen:
    """generates Python source for one basic block"""

    def __init__(self, img):
        self.img = img
        self.L = []

    def rd(self, o, w=None):
        """expression for an integer operand of width w (masked)"""
        w = w or o.w
        if o.k == 'r':
            if w == 64:
                return 'R[%d]' % o.i
            if w == 32:
                return 'r32(R[%d])' % o.i
            if o.sh:
                return '((conc(R[%d])>>8)&0xff)' % o.i
            return '(lowb(R[%d],%d))' % (o.i, w)
        if o.k == 'i':
            return '%d' % (o.v & MK[w])
        if o.k == 'm':
            return 'mem.ld%d(addr(%s))' % (w // 8, o.e)
        raise Unsupported('operand')

    def wr(self, o, v, w=None):
        w = w or o.w
        if o.k == 'r':
            if w >= 32:
                self.L.append('R[%d]=%s' % (o.i, v))
            elif o.sh:
                self.L.append('R[%d]=seth(R[%d],%s)' % (o.i, o.i, v))
            else:
                self.L.append('R[%d]=setl(R[%d],%s,%d)' % (o.i, o.i, v, w))
        else:
            self.L.append('mem.st%d(addr(%s),%s)' % (w // 8, o.e, v))

    # float operands
    def frd(self, o, n=8):
        if o.k == 'x':
            return 'X[%d]' % o.i
        return 'mem.ld%d(addr(%s))' % (n, o.e)


def lowb(v, w):
    if v.__class__ is int or v.__class__ is Partial:
        return v & MK[w]
    if v is UNDEF:
        return v
    return conc(v) & MK[w]


def setl(old, v, w):
    if old.__class__ is int and v.__class__ is int:
        return (old & ~MK[w] & M64) | (v & MK[w])
    if v.__class__ is int and old is not UNDEF and old.__class__ is not int:
        return v & MK[w]
    return v


def seth(old, v):
    return (conc(old) & ~0xff00) | ((conc(v) & 0xff) << 8)


INTRET = object()


def gen_block(img, pc):
    """translate the basic block at pc -> (function, instruction count)"""
    g = Gen(img)
    L = g.L
    n = 0
    start = pc
    done = False
    while not done:
        t = img.ins.get(pc)
        if t is None:
            raise Unsupported('no code at %#x' % pc)
        nx = img.next.get(pc, pc + 1)
        if pc in img.stubs and n == 0:
            L.append('return ext(m,%r)' % img.stubs[pc])
            n += 1
            break
        L.append('m.ip=%d' % pc)
        n += 1
        done = gen_ins(g, t, pc, nx)
        pc = nx
        if not done and (pc in img.stubs or n >= 60):
            L.append('return %d' % pc)
            done = True
    src = 'def blk(m,R,X,Y):\n mem=m.mem\n ' + '\n '.join(L) + '\n'
    ns = {}
    exec(compile(src, 'blk_%x' % start, 'exec'), NS, ns)
    return ns['blk'], n


def gen_ins(g, text, pc, nx):
    L = g.L
    text = text.split('#')[0].strip()
    text = re.sub(r'<[^>]*>', '', text).strip()
    sp = text.split(None, 1)
    mn = sp[0]
    if mn in ('rep', 'repz', 'repnz', 'lock', 'notrack', 'data16', 'cs', 'bnd'):
        if mn in ('rep', 'repz', 'repnz') and sp[1].split()[0] != 'ret':
            op = sp[1].split()[0]
            if op in ('stos', 'movs'):
                w = {'QWORD': 8, 'DWORD': 4, 'BYTE': 1, 'WORD': 2}[re.search(r'(QWORD|DWORD|BYTE|WORD) PTR', text).group(1)]
                L.append('rep_%s(m,%d)' % (op, w))
                return False
            raise Unsupported(text)
        if sp[1:] and sp[1].split()[0] != 'nop':
            return gen_ins(g, sp[1], pc, nx)
        return False
    if mn in ('nop', 'endbr64', 'nopw', 'nopl', 'xchg') and (mn != 'xchg' or sp[1] == 'ax,ax'):
        return False
    ops = [parse_op(s, nx) for s in split_ops(sp[1])] if len(sp) > 1 else []
    A = ops[0] if ops else None
    B = ops[1] if len(ops) > 1 else None

    if mn == 'movabs':
        g.wr(A, g.rd(B, 64), 64)
        return False
    if mn in ('mov',):
        w = A.w or B.w
        if A.k == 'r' and w == 32 and B.k == 'r':
            g.wr(A, 'r32(R[%d])' % B.i, 32)
        elif A.k == 'r' and w == 64 and B.k == 'r':
            g.wr(A, 'r64(R[%d])' % B.i if False else 'R[%d]' % B.i, 64)
        else:
            g.wr(A, g.rd(B, w), w)
        return False
    if mn == 'lea':
        if A.w == 64:
            L.append('R[%d]=lea64(%s)' % (A.i, B.e))
        else:
            L.append('R[%d]=lea32(%s)' % (A.i, B.e))
        return False
    if mn in ('add', 'sub', 'imul', 'and', 'or', 'xor', 'cmp', 'test', 'adc', 'sbb') and B is not None:
        w = A.w if A.k != 'i' and A.w else B.w
        if mn == 'imul':
            if len(ops) == 3:
                L.append('R[%d]=imul(x64(%s,%d),%d,%d)' % (A.i, g.rd(B, w), w, ops[2].v & MK[w], w))
            else:
                L.append('R[%d]=imul(x64(%s,%d),x64(%s,%d),%d)' % (A.i, g.rd(A, w), w, g.rd(B, w), w, w))
            L.append('m.f=("u",)')
            return False
        if mn in ('xor', 'sub') and A.k == 'r' and B.k == 'r' and A.i == B.i and w >= 32:
            L.append('R[%d]=0' % A.i)
            L.append('m.f=("z",%d,0)' % w)
            return False
        if mn == 'sbb' and A.k == 'r' and B.k == 'r' and A.i == B.i:
            L.append('R[%d]=%d if cc(m,"b") else 0' % (A.i, MK[w]))
            return False
        if mn == 'cmp':
            L.append('m.f=("c",%d,x64(%s,%d),x64(%s,%d))' % (w, g.rd(A, w), w, g.rd(B, w), w))
            return False
        if mn == 'test':
            if A.k == 'r' and B.k == 'r' and A.i == B.i:
                L.append('m.f=("z",%d,x64(%s,%d))' % (w, g.rd(A, w), w))
            else:
                L.append('m.f=("z",%d,land(%s,%s,%d))' % (w, g.rd(A, w), g.rd(B, w), w))
            return False
        if mn in ('adc', 'sbb'):
            L.append('c=1 if cc(m,"b") else 0')
            L.append('a=conc(%s);b=conc(%s)' % (g.rd(A, w), g.rd(B, w)))
            if mn == 'adc':
                L.append('r=a+b+c;fl=("m",r>%d);r&=%d' % (MK[w], MK[w]))
            else:
                L.append('r=a-b-c;fl=("m",r<0);r&=%d' % MK[w])
            g.wr(A, 'r', w)
            L.append('m.f=fl')
            return False
        L.append('a=x64(%s,%d);b=x64(%s,%d)' % (g.rd(A, w), w, g.rd(B, w), w))
        if mn == 'add':
            L.append('r=iadd(a,b,%d)' % w)
            g.wr(A, 'r', w)
            L.append('m.f=("a",%d,a,b,r)' % w)
        elif mn == 'sub':
            L.append('r=isub(a,b,%d)' % w)
            g.wr(A, 'r', w)
            L.append('m.f=("c",%d,a,b)' % w)
        else:
            L.append('r=%s(a,b,%d)' % ({'and': 'land', 'or': 'lor', 'xor': 'lxor'}[mn], w))
            g.wr(A, 'r', w)
            L.append('m.f=("z",%d,r)' % w)
        return False
    if mn in ('inc', 'dec'):
        L.append('a=x64(%s,%d)' % (g.rd(A), A.w))
        L.append('r=%s(a,1,%d)' % ('iadd' if mn == 'inc' else 'isub', A.w))
        g.wr(A, 'r')
        L.append('m.f=("z",%d,r)' % A.w)
        return False
    if mn == 'neg':
        L.append('a=x64(%s,%d)' % (g.rd(A), A.w))
        L.append('r=isub(0,a,%d)' % A.w)
        g.wr(A, 'r')
        L.append('m.f=("c",%d,0,a)' % A.w)
        return False
    if mn == 'not':
        L.append('a=x64(%s,%d)' % (g.rd(A), A.w))
        g.wr(A, 'lnot(a,%d)' % A.w)
        return False
    if mn in ('shl', 'sal', 'shr', 'sar', 'ror', 'rol'):
        w = A.w
        if B is None:
            k = '1'
        elif B.k == 'i':
            k = '%d' % (B.v & (63 if w == 64 else 31))
        else:
            L.append('k=conc(R[1])&%d' % (63 if w == 64 else 31))
            k = 'k'
        f = {'shl': 'shl', 'sal': 'shl', 'shr': 'shr', 'sar': 'sar', 'ror': 'ror', 'rol': 'rol'}[mn]
        if k == 'k':
            L.append('a=x64(%s,%d)' % (g.rd(A), w))
            L.append('r=%s(a,k,%d)' % (f, w))
            g.wr(A, 'r')
            L.append('m.f=("z",%d,r) if k else m.f' % w)
            return False
        L.append('a=x64(%s,%d)' % (g.rd(A), w))
        L.append('r=%s(a,%s,%d)' % (f, k, w))
        g.wr(A, 'r')
        L.append('m.f=("z",%d,r)' % w)
        return False
    if mn in ('shld', 'shrd'):
        w = A.w
        k = ('%d' % ops[2].v) if ops[2].k == 'i' else '(conc(R[1])&%d)' % (63 if w == 64 else 31)
        L.append('a=conc(%s)&%d;b=conc(%s)&%d;k=%s' % (g.rd(A), MK[w], g.rd(B), MK[w], k))
        if mn == 'shld':
            L.append('r=((a<<k)|(b>>(%d-k)))&%d' % (w, MK[w]))
        else:
            L.append('r=((a>>k)|(b<<(%d-k)))&%d' % (w, MK[w]))
        g.wr(A, 'r')
        L.append('m.f=("z",%d,r)' % w)
        return False
    if mn in ('idiv', 'div'):
        L.append('divmod_(m,%d,%s,%s)' % (A.w, g.rd(A), mn == 'idiv'))
        return False
    if mn in ('mul', 'imul') and B is None:
        L.append('widemul(m,%d,%s,%s)' % (A.w, g.rd(A), mn == 'imul'))
        return False
    if mn == 'cdqe':
        L.append('R[0]=sext(R[0],32,64)')
        return False
    if mn == 'cwde':
        L.append('R[0]=sext(R[0],16,32)')
        return False
    if mn in ('cqo', 'cdq'):
        w = 64 if mn == 'cqo' else 32
        L.append('R[2]=sgnext(R[0],%d)' % w)
        return False
    if mn in ('movsxd', 'movsx', 'movzx'):
        fw = B.w if B.w else 32
        if mn == 'movzx':
            g.wr(A, 'lowb2(%s,%d)' % (g.rd(B, fw), fw))
        else:
            g.wr(A, 'sext(%s,%d,%d)' % (g.rd(B, fw), fw, A.w))
        return False
    if mn == 'push':
        L.append('v=%s' % g.rd(A, 64))
        L.append('mem.st8(R[4]-8,v);R[4]-=8')
        return False
    if mn == 'pop':
        L.append('v=mem.ld8(R[4])')
        L.append('R[4]+=8')
        g.wr(A, 'v', 64)
        return False
    if mn == 'leave':
        L.append('R[4]=R[5];R[5]=mem.ld8(R[4]);R[4]+=8')
        return False
    if mn == 'ret':
        L.append('v=mem.ld8(R[4]);R[4]+=8')
        L.append('return v')
        return True
    if mn == 'call':
        if A.k == 'i':
            tgt = '%d' % A.v
        else:
            L.append('t=addr(%s)' % g.rd(A, 64))
            tgt = 't'
        L.append('mem.st8(R[4]-8,%d);R[4]-=8' % nx)
        L.append('return %s' % tgt)
        return True
    if mn == 'jmp':
        if A.k == 'i':
            L.append('return %d' % A.v)
        else:
            L.append('return addr(%s)' % g.rd(A, 64))
        return True
    if mn[0] == 'j':
        c = CCN.get(mn[1:], mn[1:])
        L.append('return %d if cc(m,%r) else %d' % (A.v, c, nx))
        return True
    if mn.startswith('set'):
        c = CCN.get(mn[3:], mn[3:])
        L.append('v=1 if cc(m,%r) else 0' % c)
        g.wr(A, 'v', 8)
        return False
    if mn.startswith('cmov'):
        c = CCN.get(mn[4:], mn[4:])
        L.append('if cc(m,%r): R[%d]=%s' % (c, A.i, g.rd(B, A.w)))
        if A.w == 32:
            L.append('else: R[%d]=r32(R[%d])' % (A.i, A.i))
        return False
    if mn in ('ud2', 'hlt'):
        L.append('raise Fault("trap","trap instruction")')
        return True
    if mn == 'xchg':
        L.append('a=%s;b=%s' % (g.rd(A), g.rd(B)))
        g.wr(A, 'b')
        g.wr(B, 'a', A.w)
        return False
    if mn == 'bt':
        L.append('m.f=("m",bool((conc(%s)>>(conc(%s)&%d))&1))' % (g.rd(A), g.rd(B, A.w) if B.k != 'i' else B.v, A.w - 1))
        return False
    if mn in ('btc', 'bts', 'btr'):
        L.append('a=conc(%s);b=1<<(conc(%s)&%d)' % (g.rd(A), g.rd(B, A.w) if B.k != 'i' else B.v, A.w - 1))
        L.append('m.f=("m",bool(a&b))')
        g.wr(A, {'btc': 'a^b', 'bts': 'a|b', 'btr': 'a&~b&%d' % MK[A.w]}[mn])
        return False
    if mn in ('bsr', 'bsf', 'tzcnt', 'lzcnt', 'popcnt'):
        L.append('a=conc(%s)&%d' % (g.rd(B), MK[B.w or A.w]))
        if mn == 'bsr':
            L.append('R[%d]=a.bit_length()-1 if a else 0' % A.i)
        elif mn in ('bsf', 'tzcnt'):
            L.append('R[%d]=(a&-a).bit_length()-1 if a else %d' % (A.i, A.w))
        elif mn == 'popcnt':
            L.append('R[%d]=bin(a).count("1")' % A.i)
        else:
            raise Unsupported(mn)
        L.append('m.f=("z",%d,a)' % A.w)
        return False
    if mn == 'bswap':
        L.append('R[%d]=int.from_bytes((conc(R[%d])&%d).to_bytes(%d,"little"),"big")' % (A.i, A.i, MK[A.w], A.w // 8))
        return False

    # ---------------- sse
    return gen_sse(g, mn, ops, A, B, pc, nx)


def gen_sse(g, mn, ops, A, B, pc, nx):
    L = g.L
    AR = {'add': 'add', 'sub': 'sub', 'mul': 'mul', 'div': 'div', 'min': 'min', 'max': 'max', 'sqrt': 'sqrt'}
    base = mn[:-2]
    if base in AR and mn[-2:] in ('sd', 'ss'):
        d = mn[-1] == 'd'
        f = ('f' if d else 'g') + base
        if base == 'sqrt':
            L.append('X[%d]=%s(%s)' % (A.i, f, g.frd(B, 8 if d else 4)))
        else:
            L.append('X[%d]=%s(X[%d],%s)' % (A.i, f, A.i, g.frd(B, 8 if d else 4)))
        return False
    if base in AR and mn[-2:] == 'pd':
        if B.k == 'x':
            bl, bh = 'X[%d]' % B.i, 'Y[%d]' % B.i
        else:
            L.append('p=addr(%s)' % B.e)
            bl, bh = 'mem.ld8(p)', 'mem.ld8(p+8)'
        if base == 'sqrt':
            L.append('X[%d],Y[%d]=fsqrt(%s),fsqrt(%s)' % (A.i, A.i, bl, bh))
        else:
            L.append('X[%d],Y[%d]=f%s(X[%d],%s),f%s(Y[%d],%s)' % (A.i, A.i, base, A.i, bl, base, A.i, bh))
        return False
    if mn in ('movapd', 'movaps', 'movdqa', 'movdqu', 'movups', 'movupd'):
        if A.k == 'x' and B.k == 'x':
            L.append('X[%d]=X[%d];Y[%d]=Y[%d]' % (A.i, B.i, A.i, B.i))
        elif A.k == 'x':
            L.append('p=addr(%s);a=mem.ld8(p);b=mem.ld8(p+8);X[%d]=a;Y[%d]=b' % (B.e, A.i, A.i))
        else:
            L.append('p=addr(%s);mem.st8(p,X[%d]);mem.st8(p+8,Y[%d])' % (A.e, B.i, B.i))
        return False
    if mn == 'movsd' or mn == 'movlpd' or mn == 'movlps':
        if A.k == 'x' and B.k == 'x':
            L.append('X[%d]=X[%d]' % (A.i, B.i))
        elif A.k == 'x':
            L.append('X[%d]=mem.ld8(addr(%s))' % (A.i, B.e))
            if mn == 'movsd':
                L.append('Y[%d]=0' % A.i)
        else:
            L.append('mem.st8(addr(%s),X[%d])' % (A.e, B.i))
        return False
    if mn in ('movhpd', 'movhps'):
        if A.k == 'x':
            L.append('Y[%d]=mem.ld8(addr(%s))' % (A.i, B.e))
        else:
            L.append('mem.st8(addr(%s),Y[%d])' % (A.e, B.i))
        return False
    if mn == 'movss':
        if A.k == 'x' and B.k == 'x':
            L.append('X[%d]=low4(X[%d])' % (A.i, B.i))
        elif A.k == 'x':
            L.append('X[%d]=mem.ld4(addr(%s));Y[%d]=0' % (A.i, B.e, A.i))
        else:
            L.append('mem.st4(addr(%s),low4(X[%d]))' % (A.e, B.i))
        return False
    if mn == 'movq':
        if A.k == 'x' and B.k == 'x':
            L.append('X[%d]=X[%d];Y[%d]=0' % (A.i, B.i, A.i))
        elif A.k == 'x' and B.k == 'r':
            L.append('X[%d]=R[%d];Y[%d]=0' % (A.i, B.i, A.i))
        elif A.k == 'x':
            L.append('X[%d]=mem.ld8(addr(%s));Y[%d]=0' % (A.i, B.e, A.i))
        elif A.k == 'r':
            L.append('R[%d]=X[%d]' % (A.i, B.i))
        else:
            L.append('mem.st8(addr(%s),X[%d])' % (A.e, B.i))
        return False
    if mn == 'movd':
        if A.k == 'x' and B.k == 'r':
            L.append('X[%d]=r32(R[%d]);Y[%d]=0' % (A.i, B.i, A.i))
        elif A.k == 'x':
            L.append('X[%d]=mem.ld4(addr(%s));Y[%d]=0' % (A.i, B.e, A.i))
        elif A.k == 'r':
            L.append('R[%d]=low4(X[%d])' % (A.i, B.i))
        else:
            L.append('mem.st4(addr(%s),low4(X[%d]))' % (A.e, B.i))
        return False
    if mn in ('pxor', 'xorpd', 'xorps', 'andpd', 'andps', 'pand', 'orpd', 'orps', 'por', 'andnpd', 'andnps', 'pandn'):
        f = {'px': 'lane_xor', 'xo': 'lane_xor', 'pa': 'lane_and', 'an': 'lane_and', 'po': 'lane_or', 'or': 'lane_or'}[mn[:2]]
        if mn in ('andnpd', 'andnps', 'pandn'):
            f = 'lane_andn'
        if f == 'lane_xor' and B.k == 'x' and A.i == B.i:
            L.append('X[%d]=0;Y[%d]=0' % (A.i, A.i))
            return False
        if B.k == 'x':
            L.append('a=%s(X[%d],X[%d]);b=hi2(%s,Y[%d],Y[%d])' % (f, A.i, B.i, f, A.i, B.i))
        else:
            L.append('p=addr(%s)' % B.e)
            L.append('a=%s(X[%d],mem.ld8(p));b=hi2(%s,Y[%d],mem.ld8(p+8))' % (f, A.i, f, A.i))
        L.append('X[%d]=a;Y[%d]=b' % (A.i, A.i))
        return False
    if mn in ('comisd', 'ucomisd'):
        L.append('m.f=("f",F(X[%d]),F(%s))' % (A.i, g.frd(B)))
        return False
    if mn in ('comiss', 'ucomiss'):
        L.append('m.f=("f",G(X[%d]),G(%s))' % (A.i, g.frd(B, 4)))
        return False
    if mn in ('cvtsi2sd', 'cvtsi2ss'):
        w = B.w
        v = g.rd(B, w)
        if mn.endswith('sd'):
            L.append('X[%d]=i2f(%s,%d)' % (A.i, v, w))
        else:
            L.append('X[%d]=F32(i2f(%s,%d))' % (A.i, v, w))
        return False
    if mn in ('cvttsd2si', 'cvtsd2si'):
        L.append('R[%d]=%s(F(%s),%d)' % (A.i, 'cvtt' if mn[3] == 't' else 'cvtr', g.frd(B), A.w))
        return False
    if mn in ('cvttss2si', 'cvtss2si'):
        L.append('R[%d]=%s(G(%s),%d)' % (A.i, 'cvtt' if mn[3] == 't' else 'cvtr', g.frd(B, 4), A.w))
        return False
    if mn == 'cvtsd2ss':
        L.append('X[%d]=F32(F(%s))' % (A.i, g.frd(B)))
        return False
    if mn == 'cvtss2sd':
        L.append('X[%d]=G(%s)' % (A.i, g.frd(B, 4)))
        return False
    if mn in ('unpcklpd', 'movlhps', 'punpcklqdq'):
        L.append('Y[%d]=%s' % (A.i, g.frd(B)))
        return False
    if mn in ('unpckhpd', 'movhlps', 'punpckhqdq'):
        if mn == 'movhlps':
            L.append('X[%d]=Y[%d]' % (A.i, B.i))
        else:
            L.append('a=Y[%d];b=%s;X[%d]=a;Y[%d]=b' % (A.i, 'Y[%d]' % B.i, A.i, A.i))
        return False
    if mn == 'unpcklps' or mn == 'punpckldq':
        if B.k == 'x':
            L.append('a=X[%d];b=X[%d]' % (A.i, B.i))
        else:
            L.append('a=X[%d];b=mem.ld8(addr(%s))' % (A.i, B.e))
        L.append('X[%d]=mkpair(low4(a),low4(b));Y[%d]=mkpair(high4(a),high4(b))' % (A.i, A.i))
        return False
    if mn == 'cvtps2pd':
        L.append('a=%s' % g.frd(B))
        L.append('X[%d],Y[%d]=G(low4(a)),G(high4(a))' % (A.i, A.i))
        return False
    if mn == 'cvtpd2ps':
        L.append('X[%d]=Pair(F32(F(X[%d])),F32(F(Y[%d])));Y[%d]=0' % (A.i, B.i, B.i, A.i))
        return False
    if mn == 'shufpd':
        k = ops[2].v
        b = ('X[%d]' if not k & 2 else 'Y[%d]') % B.i
        L.append('a=%s;b=%s;X[%d]=a;Y[%d]=b' % ('Y[%d]' % A.i if k & 1 else 'X[%d]' % A.i, b, A.i, A.i))
        return False
    if mn == 'shufps' or mn == 'pshufd':
        k = ops[2].v
        L.append('a=four(X[%d],Y[%d]);b=four(X[%d],Y[%d])' % (A.i, A.i, B.i, B.i))
        if mn == 'pshufd':
            L.append('a=b')
        L.append('X[%d]=mkpair(a[%d],a[%d]);Y[%d]=mkpair(b[%d],b[%d])' % (A.i, k & 3, (k >> 2) & 3, A.i, (k >> 4) & 3, (k >> 6) & 3))
        return False
    if mn in ('cmpltsd', 'cmplesd', 'cmpeqsd', 'cmpneqsd', 'cmpnltsd', 'cmpnlesd', 'cmpordsd', 'cmpunordsd'):
        r = mn[3:-2]
        L.append('X[%d]=fcmpmask(%r,F(X[%d]),F(%s))' % (A.i, r, A.i, g.frd(B)))
        return False
    if mn in ('cmpltss', 'cmpless', 'cmpeqss', 'cmpneqss', 'cmpnltss', 'cmpnless', 'cmpordss', 'cmpunordss'):
        r = mn[3:-2]
        L.append('X[%d]=fcmpmask(%r,G(X[%d]),G(%s))' % (A.i, r, A.i, g.frd(B, 4)))
        return False
    if mn in ('movmskpd',):
        L.append('R[%d]=(1 if decide(rel("<",F(X[%d]),Q(0))) else 0)|(2 if decide(rel("<",F(Y[%d]),Q(0))) else 0)' % (A.i, B.i, B.i))
        return False
    if mn in ('paddq', 'psubq', 'paddd', 'psubd', 'pmuludq', 'psrlq', 'psllq', 'psrldq', 'pslldq', 'pcmpeqd', 'psrad'):
        if mn in ('paddq', 'psubq'):
            if B.k == 'x':
                bl, bh = 'X[%d]' % B.i, 'Y[%d]' % B.i
            else:
                L.append('p=addr(%s)' % B.e)
                bl, bh = 'mem.ld8(p)', 'mem.ld8(p+8)'
            f = 'iadd' if mn == 'paddq' else 'isub'
            L.append('X[%d],Y[%d]=%s(X[%d],%s,64),%s(Y[%d],%s,64)' % (A.i, A.i, f, A.i, bl, f, A.i, bh))
            return False
        if mn in ('psrlq', 'psllq'):
            f = 'shr' if mn == 'psrlq' else 'shl'
            L.append('X[%d],Y[%d]=%s(X[%d],%d,64),%s(Y[%d],%d,64)' % (A.i, A.i, f, A.i, B.v, f, A.i, B.v))
            return False
        if mn == 'psrldq' and B.v == 8:
            L.append('X[%d]=Y[%d];Y[%d]=0' % (A.i, A.i, A.i))
            return False
        if mn == 'pslldq' and B.v == 8:
            L.append('Y[%d]=X[%d];X[%d]=0' % (A.i, A.i, A.i))
            return False
    # ---------------- x87 (long double helpers)
    if mn in ('fld', 'fstp', 'fild', 'fistp', 'fst'):
        return gen_x87(g, mn, A)
    L.append('raise Unsupported("instruction %s at %#x")' % (mn, pc))
    return True


def gen_x87(g, mn, A):
    g.L.append('raise Unsupported("x87 %s")' % mn)
    return True


def low4(v):
    if v.__class__ is int:
        return v & M32
    if v.__class__ is Pair:
        return v.lo
    if v.__class__ is F32 or v is UNDEF:
        return v
    if v.__class__ is SI:
        return r32(v)
    return q2b(v) & M32 if v.__class__ in (Q, Special) else v


def high4(v):
    if v.__class__ is int:
        return v >> 32
    if v.__class__ is Pair:
        return v.hi
    if v.__class__ is F32:
        return 0
    if v is UNDEF:
        return v
    return q2b(v) >> 32 if v.__class__ in (Q, Special) else v


def four(x, y):
    return (low4(x), high4(x), low4(y), high4(y))


def mkpair(a, b):
    if a.__class__ is int and b.__class__ is int:
        return a | (b << 32)
    return Pair(a, b)


def hi2(f, a, b):
    """operation on high lanes whose contents often are irrelevant"""
    try:
        return f(a, b)
    except (Unsupported, Fault):
        return UNDEF
    except Fork:
        return UNDEF


def fcmpmask(r, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    un = nan(a) or nan(b)
    if r == 'ord':
        return 0 if un else M64
    if r == 'unord':
        return M64 if un else 0
    if un:
        return M64 if r in ('neq', 'nlt', 'nle') else 0
    op = {'lt': '<', 'le': '<=', 'eq': '==', 'neq': '!=', 'nlt': '>=', 'nle': '>'}[r]
    return M64 if decide(T.rel(op, a, b)) else 0


def x64(v, w):
    if v.__class__ is SI:
        return r64(v) if w == 64 else v
    if v.__class__ is int or v is UNDEF:
        return v
    if w == 64 and v.__class__ in (Q, Node, Special, Pair):
        return v
    return v


def lowb2(v, w):
    if v.__class__ is int:
        return v & MK[w]
    if v is UNDEF:
        return v
    return v


def lea64(v):
    if v.__class__ is int:
        return v & M64
    if v.__class__ is SI:
        return mksi(v.n, 64)
    return v


def lea32(v):
    if v.__class__ is int:
        return v & M32
    if v.__class__ is SI:
        return mksi(v.n, 32)
    return v


def sgnext(v, w):
    if v.__class__ is int:
        return MK[w] if v & SB[w] else 0
    if v.__class__ is SI:
        return MK[w] if decide(T.rel('<', v.n, Q(0))) else 0
    if v is UNDEF:
        return v
    return MK[w] if conc(v) & SB[w] else 0


def ror(v, k, w):
    v = conc(v) & MK[w]
    return ((v >> k) | (v << (w - k))) & MK[w]


def rol(v, k, w):
    v = conc(v) & MK[w]
    return ((v << k) | (v >> (w - k))) & MK[w]


def rep_stos(m, w):
    R, mem = m.R, m.mem
    n = conc(R[1])
    a = conc(R[7])
    v = R[0]
    if v.__class__ is int and (v & MK[w * 8]) == 0:
        if n:
            mem.write_bytes(a, bytes(n * w))
    else:
        st = {8: mem.st8, 4: mem.st4, 1: mem.st1, 2: mem.st2}[w]
        for i in range(n):
            st(a + i * w, v)
    R[7] = a + n * w
    R[1] = 0


def rep_movs(m, w):
    R, mem = m.R, m.mem
    n = conc(R[1]) * w
    d, s = conc(R[7]), conc(R[6])
    mem.copy(d, s, n)
    R[7] = d + n
    R[6] = s + n
    R[1] = 0


rel = T.rel
NS = globals()


class CPU:
    """registers + memory of one process (rank)"""
    __slots__ = ('R', 'X', 'Y', 'f', 'mem', 'ip', 'pc', 'rank', 'data', 'n', 'status', 'world')

    def clone(self):
        c = CPU.__new__(CPU)
        c.R = self.R[:]
        c.X = self.X[:]
        c.Y = self.Y[:]
        c.f = self.f
        c.mem = self.mem.clone()
        c.ip = self.ip
        c.pc = self.pc
        c.rank = self.rank
        c.data = {k: (v.clone() if hasattr(v, 'clone') else (v[:] if isinstance(v, list) else dict(v) if isinstance(v, dict) else v))
                  for k, v in self.data.items()}
        c.n = self.n
        c.status = self.status
        return c
