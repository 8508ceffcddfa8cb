"""Models of external functions: vp_* harness calls, libc, libm, libgfortran."""
import math, struct
from fractions import Fraction as Q
import mpmath
from . import terms as T, machine as M, solve
from .terms import Node, Special, uf
from .mem import UNDEF, F32, MemError
from .machine import conc, F, G, SI, mksi, Fault, Stop, Unsupported, Fork, r32, r64, decide

M64, M32 = M.M64, M.M32
EXT = {}
PASS = {}      # families of ignored externals


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


ARG = (7, 6, 2, 1, 8, 9)


def ia(m, k):
    """k-th integer argument"""
    if k < 6:
        v = m.R[ARG[k]]
    else:
        v = m.mem.ld8(m.R[4] + 8 + 8 * (k - 6))
    return v


def ca(m, k):
    return conc(ia(m, k))


def c32(m, k):
    v = conc(r32(ia(m, k)))
    return v - (1 << 32) if v & (1 << 31) else v


def call_ext(m, name):
    f = EXT.get(name)
    m.world.eng.extused.add(name)
    if f is None:
        for p, g in PASS.items():
            if name.startswith(p):
                f = g
                break
        if f is None:
            raise Unsupported('external function %s' % name)
    f(m)
    ret = m.mem.ld8(m.R[4])
    m.R[4] += 8
    # caller-saved registers hold nothing meaningful
    return ret


M.NS['ext'] = call_ext


def nop(m):
    m.R[0] = 0


# ---------------------------------------------------------------- harness interface

def fstr(m, a, n):
    return m.mem.read_bytes(a, n).decode('latin1')


def rdi4(m, a):
    """integer(4) at a; concrete"""
    v = conc(m.mem.ld4(a))
    v &= M32
    return v - (1 << 32) if v & (1 << 31) else v


def rdi8(m, a):
    v = conc(m.mem.ld8(a)) & M64
    return v - (1 << 64) if v >> 63 else v


@ext('vp_sym_')
def vp_sym(m):
    """subroutine vp_sym(name, idx, v)"""
    name = fstr(m, ca(m, 0), ca(m, 3))
    idx = rdi4(m, ca(m, 1))
    v = m.world.eng.value(m, name, idx)
    m.world.symvals[(m.rank, name, idx)] = v
    m.mem.st8(ca(m, 2), v)


@ext('vp_symi_')
def vp_symi(m):
    name = fstr(m, ca(m, 0), ca(m, 3))
    idx = rdi4(m, ca(m, 1))
    v = m.world.eng.value(m, name, idx, integer=True)
    m.world.symvals[(m.rank, name, idx)] = v
    if v.__class__ is Node:
        m.mem.st4(ca(m, 2), mksi(v, 32))
    else:
        m.mem.st4(ca(m, 2), int(v) & M32)


@ext('vp_symf_')
def vp_symf(m):
    """single precision"""
    name = fstr(m, ca(m, 0), ca(m, 3))
    idx = rdi4(m, ca(m, 1))
    v = m.world.eng.value(m, name, idx)
    m.world.symvals[(m.rank, name, idx)] = v
    m.mem.st4(ca(m, 2), F32(v))


@ext('vp_cfg_')
def vp_cfg(m):
    name = fstr(m, ca(m, 0), ca(m, 2))
    m.mem.st4(ca(m, 1), int(m.world.eng.cfg[name]) & M32)


@ext('vp_cfgr_')
def vp_cfgr(m):
    name = fstr(m, ca(m, 0), ca(m, 2))
    m.mem.st8(ca(m, 1), T.lift(m.world.eng.cfg[name]))


def ldf(m, a):
    v = m.mem.ld8(a)
    return F(v)


@ext('vp_out_')
def vp_out(m):
    """subroutine vp_out(name, n, a(n)) real(8)"""
    name = fstr(m, ca(m, 0), ca(m, 3))
    n = rdi4(m, ca(m, 1))
    a = ca(m, 2)
    vals = [ldf(m, a + 8 * i) for i in range(n)]
    o = m.world.outs[m.rank]
    o[name] = o.get(name, []) + vals


@ext('vp_outf_')
def vp_outf(m):
    name = fstr(m, ca(m, 0), ca(m, 3))
    n = rdi4(m, ca(m, 1))
    a = ca(m, 2)
    vals = [G(m.mem.ld4(a + 4 * i)) for i in range(n)]
    o = m.world.outs[m.rank]
    o[name] = o.get(name, []) + vals


def i2v(v, w=32):
    if v.__class__ is int:
        return Q(M.sgn(v & M.MK[w], w))
    if v.__class__ is SI:
        return v.n
    if v is UNDEF:
        return v
    return Q(M.sgn(conc(v) & M.MK[w], w))


@ext('vp_outi_')
def vp_outi(m):
    name = fstr(m, ca(m, 0), ca(m, 3))
    n = rdi4(m, ca(m, 1))
    a = ca(m, 2)
    vals = [i2v(m.mem.ld4(a + 4 * i)) for i in range(n)]
    o = m.world.outs[m.rank]
    o[name] = o.get(name, []) + vals


@ext('vp_mark_')
def vp_mark(m):
    """debug marker"""
    m.world.trace.append(fstr(m, ca(m, 0), ca(m, 1)))


@ext('vp_assume_nonneg_')
def vp_assume_nonneg(m):
    v = ldf(m, ca(m, 0))
    c = T.rel('>=', v, Q(0))
    if c is False:
        raise Stop('infeasible')
    if c is not True:
        if not m.world.feasible(c):
            raise Stop('infeasible')
        m.world.assume(c)


# ---------------------------------------------------------------- libc

@ext('malloc', '_Znwm', '_Znam')
def malloc(m):
    m.R[0] = m.mem.malloc(ca(m, 0))


@ext('calloc')
def calloc(m):
    n = ca(m, 0) * ca(m, 1)
    a = m.mem.malloc(n)
    m.mem.write_bytes(a, bytes(max(n, 1)))
    m.R[0] = a


@ext('realloc')
def realloc(m):
    p, n = ca(m, 0), ca(m, 1)
    a = m.mem.malloc(n)
    if p:
        old = m.mem.blocks.get(p)
        if old is None:
            raise MemError('realloc of %#x which is not allocated' % p)
        m.mem.copy(a, p, min(old, n))
        m.mem.free(p)
    m.R[0] = a


@ext('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm')
def free(m):
    m.mem.free(ca(m, 0))


@ext('memcpy', 'memmove', '__memcpy_chk', '__memmove_chk')
def memcpy(m):
    d, s, n = ca(m, 0), ca(m, 1), ca(m, 2)
    m.mem.copy(d, s, n)
    m.R[0] = d


@ext('memset', '__memset_chk')
def memset(m):
    d, v, n = ca(m, 0), ca(m, 1) & 255, ca(m, 2)
    if n:
        m.mem.write_bytes(d, bytes([v]) * n)
    m.R[0] = d


@ext('memcmp')
def memcmp(m):
    a, b = m.mem.read_bytes(ca(m, 0), ca(m, 2)), m.mem.read_bytes(ca(m, 1), ca(m, 2))
    m.R[0] = 0 if a == b else (1 if a > b else M64)


@ext('strlen')
def strlen(m):
    a = ca(m, 0)
    n = 0
    while m.mem.read_bytes(a + n, 1) != b'\0':
        n += 1
    m.R[0] = n


@ext('abort', 'exit', '__stack_chk_fail', 'usleep', 'sleep')
def c_abort(m):
    raise Fault('abort', 'the program stops')


# ---------------------------------------------------------------- libm

_mpf = dict(exp=mpmath.exp, log=mpmath.log, sin=mpmath.sin, cos=mpmath.cos, tan=mpmath.tan, tanh=mpmath.tanh, log10=mpmath.log10, log2=lambda x: mpmath.log(x, 2),
            sinh=mpmath.sinh, cosh=mpmath.cosh, atan=mpmath.atan, asin=mpmath.asin, acos=mpmath.acos, cbrt=mpmath.cbrt, erf=mpmath.erf, exp2=lambda x: mpmath.mpf(2) ** x,
            acosh=mpmath.acosh, asinh=mpmath.asinh, atanh=mpmath.atanh,
            vp_k13=lambda x: mpmath.besselk(mpmath.mpf(1) / 3, x), vp_k23=lambda x: mpmath.besselk(mpmath.mpf(2) / 3, x), vp_k53=lambda x: mpmath.besselk(mpmath.mpf(5) / 3, x))


def mp2q(x):
    x = mpmath.mpf(x)
    if not mpmath.isfinite(x):
        return Special(float(x))
    s, man, e, b = x._mpf_
    if e + b < -5000:
        return Q(0)         # far below the smallest double
    if e + b > 5000:
        return Special(-math.inf if s else math.inf)
    q = Q(int(man)) * (Q(2) ** e)
    return -q if s else q


def q2mp(q):
    return mpmath.mpf(q.numerator) / q.denominator


EXACT = {('exp', Q(0)): Q(1), ('sin', Q(0)): Q(0), ('cos', Q(0)): Q(1), ('log', Q(1)): Q(0), ('tan', Q(0)): Q(0), ('tanh', Q(0)): Q(0),
         ('atan', Q(0)): Q(0), ('cosh', Q(0)): Q(1), ('sinh', Q(0)): Q(0)}


def fun(name, x):
    """a libm function on a known or symbolic value (used by models and specifications alike)"""
    if x.__class__ is Node:
        inv = {'exp': 'log', 'log': 'exp'}.get(name)
        if inv:
            p = T.poly(x)
            if len(p) == 1:
                (mo, co), = p.items()
                if co == 1 and len(mo) == 1 and mo[0] > 0 and T._atoms[mo[0]].op == 'uf' and T._atoms[mo[0]].a == inv:
                    return T._atoms[mo[0]].b[0]
        if name == 'cbrt':
            # multiplicative
            p = T.poly(x)
            if len(p) == 1:
                (mo, co), = p.items()
                if co != 1 or len(mo) > 1:
                    r = fun('cbrt', co)
                    for i in mo:
                        b = T._atoms[abs(i)]
                        a = uf('cbrt', T.frompoly(b.info) if b.op == 'poly_atom' else b)
                        r = T.mul(r, a) if i > 0 else T.div(r, a)
                    return r
        return uf(name, x)
    if x is UNDEF:
        return x
    if x.__class__ is Special:
        try:
            return T.back(float(_mpf[name](float(x))))
        except Exception:
            return Special(math.nan)
    r = EXACT.get((name, x))
    if r is not None:
        return r
    with mpmath.workprec(160):
        try:
            if name == 'cbrt':
                v = mpmath.cbrt(abs(q2mp(x)))
                if x < 0:
                    v = -v
            else:
                v = _mpf[name](q2mp(x))
            if isinstance(v, mpmath.mpc):
                return Special(math.nan)
            v = mp2q(v)
            if v.__class__ is Q and name in solve.MONO:
                solve.CONSTS.setdefault(name, {})[x] = v
            return v
        except (ValueError, ZeroDivisionError):
            return Special(-math.inf if name.startswith('log') and x == 0 else math.nan)


def decide_nonneg(x):
    lo, hi = T.interval(T.poly(x))
    if lo is not None and lo >= 0:
        return True
    w = M.CUR[0] if M.CUR else None
    return w is not None and solve.check(solve.slice_(w.path, ('R', '<', x)) + [('R', '<', x)])[0] == 'unsat'


def powr(x, y):
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if y.__class__ is Q and y.denominator > 8:
        z = y.limit_denominator(24)      # an exponent in single precision
        if z and abs(z - y) <= abs(y) / 2 ** 24:
            y = z
    if y.__class__ is Q and y.denominator == 1 and abs(y) <= 64:
        n = int(y)
        r = T.ONE
        b = x
        k = abs(n)
        while k:
            if k & 1:
                r = T.mul(r, b)
            k >>= 1
            if k:
                b = T.mul(b, b)
        return T.div(T.ONE, r) if n < 0 else r
    if y.__class__ is Q and y == Q(1, 2):
        return T.sqrt(x)
    if y.__class__ is Q and y == Q(-1, 2):
        return T.div(T.ONE, T.sqrt(x))
    if y.__class__ is Q and y == Q(3, 2):
        return T.mul(x, T.sqrt(x))
    if y.__class__ is Q and x.__class__ is Node and abs(y) <= 8 and y.denominator in (2, 3, 4, 6, 8, 9, 12, 16) and (T.sign(x) or decide_nonneg(x)):
        # nested square and cube roots
        if y.denominator % 2 == 0:
            return powr(T.sqrt(x), y * 2)
        return powr(fun('cbrt', x), y * 3)
    if x.__class__ is Q and y.__class__ is Q:
        if x < 0:
            return Special(math.nan)
        if x == 0:
            return T.ZERO if y > 0 else Special(math.inf)
        with mpmath.workprec(160):
            return mp2q(mpmath.power(q2mp(x), q2mp(y)))
    if x.__class__ is Special or y.__class__ is Special:
        return Special(math.nan)
    return uf('pow', x, y)


for _n in _mpf:
    def _mk(nm):
        def f(m):
            m.X[0] = fun(nm, F(m.X[0]))

        def g(m):
            m.X[0] = F32(fun(nm, G(m.X[0])))
        EXT[nm] = f
        EXT[nm + 'f'] = g
    _mk(_n)


@ext('sqrt')
def l_sqrt(m):
    m.X[0] = T.sqrt(F(m.X[0]))


@ext('sqrtf')
def l_sqrtf(m):
    m.X[0] = F32(T.sqrt(G(m.X[0])))


@ext('pow')
def l_pow(m):
    m.X[0] = powr(F(m.X[0]), F(m.X[1]))


@ext('powf')
def l_powf(m):
    m.X[0] = F32(powr(G(m.X[0]), G(m.X[1])))


@ext('__powidf2')
def l_powi(m):
    n = c32(m, 0)
    m.X[0] = powr(F(m.X[0]), Q(n))


@ext('__powisf2')
def l_powif(m):
    n = c32(m, 0)
    m.X[0] = F32(powr(G(m.X[0]), Q(n)))


def fabs(x):
    if x is UNDEF:
        return x
    return x if decide(T.rel('>=', x, T.ZERO)) else T.neg(x)


@ext('fabs')
def l_fabs(m):
    m.X[0] = fabs(F(m.X[0]))


@ext('hypot')
def l_hypot(m):
    a, b = F(m.X[0]), F(m.X[1])
    m.X[0] = T.sqrt(T.add(T.mul(a, a), T.mul(b, b)))


@ext('cabs')
def l_cabs(m):
    l_hypot(m)


def itrunc(m, n):
    """truncation as a signed value: int or node"""
    if n.__class__ is Q:
        return Q(M.trunc_int(n))
    v = m.world.trunc(n, 64)
    return i2v(v, 64)


def vfloor(m, n):
    if n.__class__ is Q:
        return Q(n.numerator // n.denominator)
    if n is UNDEF or n.__class__ is Special:
        return n
    k = itrunc(m, n)
    return T.sub(k, T.ONE) if decide(T.rel('<', n, k)) else k


def vround(m, n):
    """half away from zero"""
    if n.__class__ is Q:
        r = Q(int(abs(n) + Q(1, 2)))
        return r if n >= 0 else -r
    if n is UNDEF or n.__class__ is Special:
        return n
    if decide(T.rel('>=', n, T.ZERO)):
        return itrunc(m, T.add(n, Q(1, 2)))
    return itrunc(m, T.sub(n, Q(1, 2)))


def toint(v, w=64):
    if v.__class__ is Q:
        return int(v) & M.MK[w]
    if v.__class__ is Node:
        return mksi(v, w)
    if v is UNDEF:
        return v
    return M.SB[w]


@ext('log1p')
def l_log1p(m):
    m.X[0] = fun('log', T.add(T.ONE, F(m.X[0])))


@ext('log1pf')
def l_log1pf(m):
    m.X[0] = F32(fun('log', T.add(T.ONE, G(m.X[0]))))


@ext('expm1')
def l_expm1(m):
    m.X[0] = T.sub(fun('exp', F(m.X[0])), T.ONE)


@ext('expm1f')
def l_expm1f(m):
    m.X[0] = F32(T.sub(fun('exp', G(m.X[0])), T.ONE))


@ext('fma')
def l_fma(m):
    m.X[0] = T.add(T.mul(F(m.X[0]), F(m.X[1])), F(m.X[2]))


@ext('fmaf')
def l_fmaf(m):
    m.X[0] = F32(T.add(T.mul(G(m.X[0]), G(m.X[1])), G(m.X[2])))


@ext('hypotf')
def l_hypotf(m):
    a, b = G(m.X[0]), G(m.X[1])
    m.X[0] = F32(T.sqrt(T.add(T.mul(a, a), T.mul(b, b))))


@ext('fabsf')
def l_fabsf(m):
    m.X[0] = F32(fabs(G(m.X[0])))


@ext('ceilf')
def l_ceilf(m):
    m.X[0] = F32(T.neg(vfloor(m, T.neg(G(m.X[0])))))


@ext('truncf')
def l_truncf(m):
    m.X[0] = F32(itrunc(m, G(m.X[0])))


@ext('roundf')
def l_roundf(m):
    m.X[0] = F32(vround(m, G(m.X[0])))


@ext('fmodf')
def l_fmodf(m):
    a, b = G(m.X[0]), G(m.X[1])
    m.X[0] = F32(T.sub(a, T.mul(itrunc(m, T.div(a, b)), b)))


@ext('fmaxf')
def l_fmaxf(m):
    m.X[0] = F32(M._max(G(m.X[0]), G(m.X[1])))


@ext('fminf')
def l_fminf(m):
    m.X[0] = F32(M._min(G(m.X[0]), G(m.X[1])))


@ext('floor')
def l_floor(m):
    m.X[0] = vfloor(m, F(m.X[0]))


@ext('floorf')
def l_floorf(m):
    m.X[0] = F32(vfloor(m, G(m.X[0])))


@ext('ceil')
def l_ceil(m):
    m.X[0] = T.neg(vfloor(m, T.neg(F(m.X[0]))))


@ext('trunc')
def l_trunc(m):
    m.X[0] = itrunc(m, F(m.X[0]))


@ext('round')
def l_round(m):
    m.X[0] = vround(m, F(m.X[0]))


@ext('lround', 'llround', 'iround')
def l_lround(m):
    m.R[0] = toint(vround(m, F(m.X[0])))


@ext('lroundf')
def l_lroundf(m):
    m.R[0] = toint(vround(m, G(m.X[0])))


@ext('fmod')
def l_fmod(m):
    a, b = F(m.X[0]), F(m.X[1])
    q = itrunc(m, T.div(a, b))
    m.X[0] = T.sub(a, T.mul(q, b))


@ext('atan2')
def l_atan2(m):
    a, b = F(m.X[0]), F(m.X[1])
    if a.__class__ is Q and b.__class__ is Q:
        with mpmath.workprec(160):
            m.X[0] = mp2q(mpmath.atan2(q2mp(a), q2mp(b)))
    else:
        m.X[0] = uf('atan2', a, b)


@ext('fmax')
def l_fmax(m):
    a, b = F(m.X[0]), F(m.X[1])
    m.X[0] = M._max(a, b)


@ext('fmin')
def l_fmin(m):
    a, b = F(m.X[0]), F(m.X[1])
    m.X[0] = M._min(a, b)


@ext('sincos')
def l_sincos(m):
    x = F(m.X[0])
    s, c = fun('sin', x), fun('cos', x)
    m.mem.st8(ca(m, 0), s)
    m.mem.st8(ca(m, 1), c)


# complex helpers
def _cmul(a, b, c, d):
    return T.sub(T.mul(a, c), T.mul(b, d)), T.add(T.mul(a, d), T.mul(b, c))


@ext('__muldc3')
def l_muldc3(m):
    a, b, c, d = (F(m.X[i]) for i in range(4))
    m.X[0], m.X[1] = _cmul(a, b, c, d)


@ext('__divdc3')
def l_divdc3(m):
    a, b, c, d = (F(m.X[i]) for i in range(4))
    n = T.add(T.mul(c, c), T.mul(d, d))
    r, i = _cmul(a, b, c, T.neg(d))
    m.X[0], m.X[1] = T.div(r, n), T.div(i, n)


@ext('cexp')
def l_cexp(m):
    a, b = F(m.X[0]), F(m.X[1])
    e = fun('exp', a)
    m.X[0], m.X[1] = T.mul(e, fun('cos', b)), T.mul(e, fun('sin', b))


# ---------------------------------------------------------------- libgfortran

PASS['_gfortran_st_write'] = nop
PASS['_gfortran_transfer_'] = nop


@ext('_gfortran_st_open', '_gfortran_st_close', '_gfortran_flush_i4', '_gfortran_st_inquire', '_gfortran_date_and_time', '_gfortran_random_seed_i4',
     '_gfortran_set_options', '_gfortran_set_args', '_gfortran_st_rewind', '_gfortran_flush_i8')
def gf_nop(m):
    m.R[0] = 0


@ext('_gfortran_stop_string', '_gfortran_error_stop_string', '_gfortran_stop_numeric', '_gfortran_exit_i4', '_gfortran_error_stop_numeric')
def gf_stop(m):
    raise Fault('stop', 'STOP statement reached')


@ext('_gfortran_runtime_error_at', '_gfortran_runtime_error', '_gfortran_os_error_at', '_gfortran_os_error', '_gfortran_generate_error')
def gf_rterr(m):
    a = ca(m, 0)
    s = ''
    try:
        for i in range(200):
            ch = m.mem.read_bytes(a + i, 1)
            if ch == b'\0':
                break
            s += ch.decode('latin1')
    except Exception:
        pass
    raise Fault('runtime-error', 'Fortran runtime error: %s' % s)


@ext('_gfortran_string_len_trim')
def gf_len_trim(m):
    n, a = ca(m, 0), ca(m, 1)
    m.R[0] = len(m.mem.read_bytes(a, n).rstrip(b' '))


@ext('_gfortran_string_trim')
def gf_trim(m):
    """(gfc_charlen *len, void **dest, len, src)"""
    pl, pd, n, a = ca(m, 0), ca(m, 1), ca(m, 2), ca(m, 3)
    s = m.mem.read_bytes(a, n).rstrip(b' ')
    m.mem.st8(pl, len(s))
    if s:
        d = m.mem.malloc(len(s))
        m.mem.write_bytes(d, s)
    else:
        d = 0
    m.mem.st8(pd, d)


@ext('_gfortran_compare_string')
def gf_cmp(m):
    n1, a1, n2, a2 = (ca(m, i) for i in range(4))
    s, t = m.mem.read_bytes(a1, n1), m.mem.read_bytes(a2, n2)
    k = max(n1, n2)
    s, t = s.ljust(k), t.ljust(k)
    m.R[0] = 0 if s == t else (1 if s > t else M32)


@ext('_gfortran_concat_string')
def gf_concat(m):
    """destlen, dest, len1, s1, len2, s2"""
    n, d, n1, a1, n2, a2 = (ca(m, i) for i in range(6))
    s = (m.mem.read_bytes(a1, n1) + m.mem.read_bytes(a2, n2)).ljust(n)[:n]
    m.mem.write_bytes(d, s)


@ext('_gfortran_string_index')
def gf_index(m):
    n1, a1, n2, a2, back = (ca(m, i) for i in range(5))
    s, t = m.mem.read_bytes(a1, n1), m.mem.read_bytes(a2, n2)
    m.R[0] = ((s.rfind(t) if back & M32 else s.find(t)) + 1) & M32


@ext('_gfortran_string_scan')
def gf_scan(m):
    n1, a1, n2, a2, back = (ca(m, i) for i in range(5))
    s, t = m.mem.read_bytes(a1, n1), m.mem.read_bytes(a2, n2)
    r = [i for i, ch in enumerate(s) if ch in t]
    m.R[0] = 0 if not r else (r[-1] if back & M32 else r[0]) + 1


@ext('_gfortran_adjustl')
def gf_adjustl(m):
    d, n, a = ca(m, 0), ca(m, 1), ca(m, 2)
    m.mem.write_bytes(d, m.mem.read_bytes(a, n).lstrip(b' ').ljust(n))


@ext('_gfortran_adjustr')
def gf_adjustr(m):
    d, n, a = ca(m, 0), ca(m, 1), ca(m, 2)
    m.mem.write_bytes(d, m.mem.read_bytes(a, n).rstrip(b' ').rjust(n))


@ext('_gfortran_pow_i4_i4')
def gf_powi(m):
    m.R[0] = (c32(m, 0) ** c32(m, 1) if c32(m, 1) >= 0 else 0) & M32


@ext('_gfortran_pow_i8_i4')
def gf_powi8(m):
    b = ca(m, 0)
    b = b - (1 << 64) if b >> 63 else b
    m.R[0] = (b ** c32(m, 1) if c32(m, 1) >= 0 else 0) & M64


@ext('_gfortran_cpu_time_8')
def gf_cput(m):
    m.mem.st8(ca(m, 0), Q(0))


@ext('_gfortran_system_clock_4')
def gf_clk(m):
    for k in range(3):
        a = ca(m, k)
        if a:
            m.mem.st4(a, 1)


@ext('_gfortran_system_clock_8')
def gf_clk8(m):
    for k in range(3):
        a = ca(m, k)
        if a:
            m.mem.st8(a, 1)


@ext('_gfortran_random_r8')
def gf_rnd(m):
    k = m.data.get('rnd', 0)
    v = m.world.eng.value(m, 'random', k)
    m.data['rnd'] = k + 1
    m.world.symvals[(m.rank, 'random', k)] = v
    m.mem.st8(ca(m, 0), v)


class Desc:
    """gfortran array descriptor"""

    def __init__(self, m, a):
        g = lambda o: (lambda v: v - (1 << 64) if v >> 63 else v)(conc(m.mem.ld8(a + o)))
        self.a = a
        self.base = g(0)
        self.off = g(8)
        self.elen = g(16)
        self.rank = conc(m.mem.ld1(a + 28))
        self.typ = conc(m.mem.ld1(a + 29))
        self.span = g(32)
        self.dim = [(g(40 + 24 * i), g(48 + 24 * i), g(56 + 24 * i)) for i in range(self.rank)]

    def ext(self):
        return [max(0, u - l + 1) for s, l, u in self.dim]

    def addrs(self):
        """element addresses in array order"""
        e = self.ext()
        st = [s * (self.span or self.elen) for s, l, u in self.dim]
        res = [self.base]
        out = []
        import itertools
        for idx in itertools.product(*[range(k) for k in reversed(e)]):
            out.append(self.base + sum(i * s for i, s in zip(reversed(idx), st)))
        return out


@ext('_gfortran_internal_pack')
def gf_pack(m):
    d = Desc(m, ca(m, 0))
    ad = d.addrs()
    if all(b - a == d.elen for a, b in zip(ad, ad[1:])):
        m.R[0] = d.base & M64
        return
    p = m.mem.malloc(len(ad) * d.elen)
    for i, a in enumerate(ad):
        m.mem.copy(p + i * d.elen, a, d.elen)
    m.R[0] = p


@ext('_gfortran_internal_unpack')
def gf_unpack(m):
    d = Desc(m, ca(m, 0))
    p = ca(m, 1)
    if p == d.base:
        return
    for i, a in enumerate(d.addrs()):
        m.mem.copy(a, p + i * d.elen, d.elen)


def _matmul(cplx):
    def f(m):
        r, a, b = Desc(m, ca(m, 0)), Desc(m, ca(m, 1)), Desc(m, ca(m, 2))
        ea, eb = a.ext(), b.ext()

        def ld(ad):
            if cplx:
                return (ldf(m, ad), ldf(m, ad + 8))
            return ldf(m, ad)
        A = [ld(x) for x in a.addrs()]
        B = [ld(x) for x in b.addrs()]
        if a.rank == 2 and b.rank == 2:
            n, k, p = ea[0], ea[1], eb[1]
            shape = (n, p)
        elif a.rank == 2:
            n, k, p = ea[0], ea[1], 1
            shape = (n,)
        else:
            n, k, p = 1, ea[0], eb[1]
            shape = (p,)
        out = []
        for j in range(p):
            for i in range(n):
                if cplx:
                    sr = si = T.ZERO
                    for l in range(k):
                        x, y = _cmul(*A[i + n * l], *B[l + k * j])
                        sr, si = T.add(sr, x), T.add(si, y)
                    out.append((sr, si))
                else:
                    s = T.ZERO
                    for l in range(k):
                        s = T.add(s, T.mul(A[i + n * l], B[l + k * j]))
                    out.append(s)
        if r.base == 0:
            es = 16 if cplx else 8
            p0 = m.mem.malloc(es * len(out))
            m.mem.st8(r.a, p0)
            m.mem.st8(r.a + 8, 0)
            st = 1
            for q, e in enumerate(shape):
                m.mem.st8(r.a + 40 + 24 * q, st)
                m.mem.st8(r.a + 48 + 24 * q, 0)
                m.mem.st8(r.a + 56 + 24 * q, e - 1)
                st *= e
            ads = [p0 + es * i for i in range(len(out))]
        else:
            ads = r.addrs()
        for ad, v in zip(ads, out):
            if cplx:
                m.mem.st8(ad, v[0])
                m.mem.st8(ad + 8, v[1])
            else:
                m.mem.st8(ad, v)
    return f


EXT['_gfortran_matmul_r8'] = _matmul(False)
EXT['_gfortran_matmul_c8'] = _matmul(True)


@ext('_gfortran_get_command_argument_i4', '_gfortran_get_command_i4')
def gf_getarg(m):
    raise Unsupported('command arguments')


@ext('_gfortran_iargc', '_gfortran_command_argument_count')
def gf_iargc(m):
    m.R[0] = len(m.world.eng.argv or [])


@ext('__cxa_atexit', '__cxa_guard_release', '__cxa_guard_abort', '__cxa_finalize')
def cxx_nop(m):
    m.R[0] = 0


@ext('__cxa_guard_acquire')
def cxx_guard(m):
    a = ca(m, 0)
    v = m.mem.ld1(a)
    m.R[0] = 0 if v else 1
    if not v:
        m.mem.st1(a, 1)


@ext('__cxa_throw', '_ZSt20__throw_length_errorPKc', '_ZSt17__throw_bad_allocv', '__cxa_allocate_exception', '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt19__throw_logic_errorPKc', '_ZSt16__throw_bad_castv', '_ZSt25__throw_bad_function_callv')
def cxx_throw(m):
    raise Fault('exception', 'a C++ exception is thrown')
