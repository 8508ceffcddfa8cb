"""Real-valued symbolic terms, polynomial normal form, conditions.

A value is a Fraction (known) or a hash-consed Node.  Nodes are expanded on demand to polynomials over
atoms (free symbols, inverses, square roots, uninterpreted applications): {sorted tuple of atom ids: Fraction}.
-i in a monomial stands for 1/atom_i.  Square-root atoms are reduced with s*s -> radicand.
"""
from fractions import Fraction as Q
import math, struct

ZERO, ONE = Q(0), Q(1)
HALF = Q(1, 2)


class Node:
    __slots__ = ('op', 'a', 'b', 'id', '_p', 'info')

    def __init__(self, op, a, b, id):
        self.op, self.a, self.b, self.id = op, a, b, id
        self._p = None
        self.info = None

    def __repr__(self):
        return show(self)

    # convenience operators for specifications
    def __add__(s, o): return add(s, lift(o))
    __radd__ = __add__
    def __sub__(s, o): return sub(s, lift(o))
    def __rsub__(s, o): return sub(lift(o), s)
    def __mul__(s, o): return mul(s, lift(o))
    __rmul__ = __mul__
    def __truediv__(s, o): return div(s, lift(o))
    def __rtruediv__(s, o): return div(lift(o), s)
    def __neg__(s): return neg(s)
    def __pow__(s, n):
        r = ONE
        for _ in range(n):
            r = mul(r, s)
        return r


_tab = {}
_nid = [0]
_atoms = {}          # id -> Node (atom)


def _mk(op, a, b=None):
    ka = a.id if a.__class__ is Node else a
    kb = b.id if b.__class__ is Node else b
    # Node ids are ints, Fractions compare equal to ints: tag them
    k = (op, a.__class__ is Node, ka, b.__class__ is Node, kb)
    n = _tab.get(k)
    if n is None:
        _nid[0] += 1
        n = Node(op, a, b, _nid[0])
        _tab[k] = n
    return n


def lift(x):
    if x.__class__ is Node or x.__class__ is Q:
        return x
    if isinstance(x, int):
        return Q(x)
    if isinstance(x, float):
        return fl2q(x)
    if x.__class__.__name__ == 'Undef':
        x._used()
    raise TypeError(x.__class__)


def fl2q(f):
    return bits2q(struct.unpack('<Q', struct.pack('<d', f))[0])


_b2q = {}


class Special(float):
    """inf or nan travelling through real-mode arithmetic"""


CLIGHT = 299792458
PI = Q(math.pi)
_phys = []


def _phys_table():
    """doubles of small rational multiples of powers of pi and of the speed of light"""
    import bisect
    rs = sorted({Q(n, d) for n in list(range(1, 13)) + [16, 24, 32] for d in list(range(1, 13)) + [16, 24, 32]})
    for e in (0, 7, -7):
        for a in range(-3, 4):
            for b in range(-9, 10):
                if a == 0 and b == 0 and e == 0:
                    continue
                base = PI ** a * Q(CLIGHT) ** b * Q(10) ** e
                for r in rs:
                    v = base * r
                    _phys.append((float(v), v))
    _phys.sort()


_reg = []       # registered constants: sorted (double, exact value)


def register(base, expo, pref=(1,), maxsum=99):
    """products of named physical constants (exact decimals) that the compiler may have folded to a double.
    base: exact values, expo: per base value the exponents, pref: rational prefactors"""
    import itertools
    for es in itertools.product(*expo):
        if not any(es) or sum(abs(e) for e in es) > maxsum:
            continue
        v = ONE
        for b, e in zip(base, es):
            v *= Q(b) ** e
        for r in pref:
            w = v * Q(r)
            if Q(1, 10**300) < abs(w) < 10**300:
                _reg.append((float(abs(w)), abs(w)))
    _reg.sort()
    _b2q.clear()
    _b2q32.clear()


def snapreg(f, tol):
    import bisect
    a = abs(f)
    i = bisect.bisect_left(_reg, (a * (1 - tol),))
    best = None
    while i < len(_reg) and _reg[i][0] <= a * (1 + tol):
        d = abs(_reg[i][0] - a)
        if best is None or d < best[0]:
            best = (d, _reg[i][1])
        i += 1
    if best is not None:
        return best[1] if f > 0 else -best[1]
    return None


def snap(f, q):
    """known doubles that are the rounding of an exact constant are read as that constant (arithmetic is over the reals)"""
    if q.denominator <= (1 << 24) and abs(q.numerator) < (1 << 50):
        return q
    if _reg:
        r = snapreg(f, 2e-15)
        if r is not None:
            return r
    if q.denominator > (1 << 24):
        r = q.limit_denominator(1024)
        if r != 0 and abs(r) < 10**6 and float(r) == f:
            return r
    if not _phys:
        _phys_table()
    import bisect
    a = abs(f)
    i = bisect.bisect_left(_phys, (a * (1 - 6e-16),))
    if i < len(_phys) and _phys[i][0] <= a * (1 + 6e-16):
        v = _phys[i][1]
        return v if f > 0 else -v
    return q


def bits2q(bits):
    q = _b2q.get(bits)
    if q is None:
        f = struct.unpack('<d', struct.pack('<Q', bits))[0]
        if f != f or f in (math.inf, -math.inf):
            q = Special(f)
        else:
            q = Q(f)
            q = snap(f, q)
        _b2q[bits] = q
    return q


_b2q32 = {}


def bits2q32(bits):
    q = _b2q32.get(bits)
    if q is None:
        f = struct.unpack('<f', struct.pack('<I', bits))[0]
        if f != f or f in (math.inf, -math.inf):
            q = Special(f)
        else:
            q = Q(f)
            if _reg and q.denominator > (1 << 12) or abs(q.numerator) > (1 << 20):
                r = snapreg(f, 3e-7)
                if r is not None:
                    q = r
            if q.denominator > (1 << 12):
                r = q.limit_denominator(100)
                if r != 0 and abs(r) < 1000 and struct.unpack('<f', struct.pack('<f', float(r)))[0] == f:
                    q = r
        _b2q32[bits] = q
    return q


def q2bits(q):
    return struct.unpack('<Q', struct.pack('<d', float(q)))[0]


def q2bits32(q):
    return struct.unpack('<I', struct.pack('<f', float(q)))[0]


VARS = {}     # name -> Node


def var(name, lo=None, hi=None, sort='R', z=None):
    n = VARS.get(name)
    if n is None:
        n = _mk('var', name)
        n.info = (None if lo is None else Q(lo), None if hi is None else Q(hi), sort, z)
        VARS[name] = n
        _atoms[n.id] = n
    elif lo is not None and n.info[0] != lo or hi is not None and n.info[1] != hi:
        raise RuntimeError('variable %s with two ranges: %s and %s' % (name, n.info, (lo, hi)))
    return n


def add(a, b):
    if a.__class__ is Q:
        if b.__class__ is Q:
            return a + b
        if not a:
            return b
        if b.__class__ is Node:
            return _mk('+', b, a)
    elif b.__class__ is Q:
        if a.__class__ is Node:
            return a if not b else _mk('+', a, b)
    elif a.__class__ is Node and b.__class__ is Node:
        if a.id > b.id:
            a, b = b, a
        return _mk('+', a, b)
    return _spec(lambda x, y: x + y, a, b)


def _spec(f, a, b):
    if a.__class__ is not Q and a.__class__ is not Node and a.__class__ is not Special:
        return a
    if b.__class__ is not Q and b.__class__ is not Node and b.__class__ is not Special:
        return b
    if a.__class__ is Node or b.__class__ is Node:
        return Special(math.nan)
    try:
        return back(f(float(a), float(b)))
    except ZeroDivisionError:
        return Special(math.nan)


def back(f):
    if f != f or f in (math.inf, -math.inf):
        return Special(f)
    return fl2q(f)


def neg(a):
    if a.__class__ is Q:
        return -a
    if a.__class__ is Node:
        if a.op == 'neg':
            return a.a
        return _mk('neg', a)
    return Special(-a)


def sub(a, b):
    if a.__class__ is Q and b.__class__ is Q:
        return a - b
    if a is b and a.__class__ is Node:
        return ZERO
    if b.__class__ is Q and a.__class__ is Node:
        return a if not b else _mk('+', a, -b)
    if a.__class__ is Q and b.__class__ is Node:
        return neg(b) if not a else _mk('-', a, b)
    if a.__class__ is Node and b.__class__ is Node:
        return _mk('-', a, b)
    return _spec(lambda x, y: x - y, a, b)


def mul(a, b):
    if a.__class__ is Q:
        if b.__class__ is Q:
            return a * b
        if b.__class__ is Node:
            if not a:
                return ZERO
            if a == 1:
                return b
            return _mk('*', b, a)
    elif b.__class__ is Q:
        if a.__class__ is Node:
            if not b:
                return ZERO
            if b == 1:
                return a
            return _mk('*', a, b)
    elif a.__class__ is Node and b.__class__ is Node:
        if a.id > b.id:
            a, b = b, a
        return _mk('*', a, b)
    return _spec(lambda x, y: x * y, a, b)


DIV_HOOK = [None]    # called with a symbolic denominator


def div(a, b):
    if b.__class__ is Q:
        if b:
            if a.__class__ is Q:
                return a / b
            if a.__class__ is Node:
                return mul(a, 1 / b)
        else:
            if a.__class__ is Q:
                return Special(math.nan if not a else (math.inf if a > 0 else -math.inf))
            return Special(math.nan)
    if b.__class__ is Node and (a.__class__ is Node or a.__class__ is Q):
        if DIV_HOOK[0]:
            DIV_HOOK[0](b)
        if a.__class__ is Q and not a:
            return ZERO
        if a is b:
            return ONE
        return _mk('/', a, b)
    if b.__class__ is Special and abs(b) == math.inf and a.__class__ is not Special:
        return ZERO
    return _spec(lambda x, y: x / y if y else math.nan, a, b)


SQRT_HOOK = [None]
_sg = {}


def learn(x, s):
    for k in [k for k, v in _sg.items() if not v]:
        del _sg[k]
    _sg[x.id] = s


def sign(x, depth=0):
    """structural lower bound: 2 = positive, 1 = not negative, 0 = unknown"""
    if x.__class__ is Q:
        return 2 if x > 0 else 1 if x == 0 else 0
    if x.__class__ is not Node:
        return 0
    r = _sg.get(x.id)
    if r is not None:
        return r
    if depth > 60:
        return 0
    op, r = x.op, 0
    if op == '+':
        a = sign(x.a, depth + 1)
        b = sign(x.b, depth + 1) if a else 0
        r = max(a, b) if a and b else 0
    elif op == '*':
        if x.a is x.b:
            r = 1
        else:
            a = sign(x.a, depth + 1)
            r = min(a, sign(x.b, depth + 1)) if a else 0
    elif op == '/':
        if sign(x.b, depth + 1) == 2:
            r = sign(x.a, depth + 1)
    elif op == 'uf' and x.a == 'exp':
        r = 2
    elif op == 'sqrt':
        r = 2 if sign(x.a, depth + 1) == 2 else 1
    if not r and op not in ('+', '*', '/', 'sqrt', '-', 'neg'):
        try:
            lo, hi = interval(poly(x))
            if lo is not None and lo >= 0:
                r = 2 if lo > 0 else 1
        except Exception:
            pass
    _sg[x.id] = r
    return r


def qsqrt(q):
    """square root of a known value: exact when it is, else the nearest double as a rational"""
    if q < 0:
        return Special(math.nan)
    n, d = q.numerator, q.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d:
        return Q(a, b)
    # 200-bit accurate rational
    sh = 220
    return Q(math.isqrt((n << (2 * sh)) // d), 1 << sh)


def sqrt(a):
    if a.__class__ is Q:
        return qsqrt(a)
    if a.__class__ is Node:
        p = poly(a)
        if not p:
            return ZERO
        if len(p) == 1 and () in p:
            return qsqrt(p[()])
        if SQRT_HOOK[0]:
            SQRT_HOOK[0](a)
        return _mk('sqrt', a)
    return back(math.sqrt(a)) if a >= 0 else Special(math.nan)


HASUF = [False]     # some uninterpreted function was applied


def uf(name, *args):
    """uninterpreted application; arguments canonicalised through their polynomials"""
    key = (name,) + tuple(pkey(poly(lift(x))) for x in args)
    n = _tab.get(key)
    if n is None:
        _nid[0] += 1
        HASUF[0] = True
        n = Node('uf', name, tuple(lift(x) for x in args), _nid[0])
        _tab[key] = n
        _atoms[n.id] = n
    return n


# ---------------------------------------------------------------- polynomials

def pkey(p):
    return tuple(sorted(p.items()))


_invs = {}   # canonical poly key -> atom node for 1/poly
_sqs = {}    # canonical poly key -> atom node for sqrt(poly)


def padd(p, q, s=1):
    if len(p) < len(q) and s == 1:
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = c if s == 1 else c * s
        else:
            v = v + (c if s == 1 else c * s)
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def mono_mul(m, n):
    """returns (monomial, None) or (monomial, extra poly to multiply by)"""
    if not m:
        return n, None
    if not n:
        return m, None
    t = sorted(m + n)
    extra = None
    # cancel i against -i
    if t[0] < 0 < t[-1]:
        pos = set(x for x in t if x > 0)
        for x in [x for x in t if x < 0]:
            if -x in pos and -x in t:
                t.remove(x)
                t.remove(-x)
    # reduce squares of sqrt atoms
    i = 0
    while i + 1 < len(t):
        if t[i] == t[i + 1]:
            at = _atoms[abs(t[i])]
            if at.op == 'sqrt_atom':
                # s*s -> radicand ; (1/s)*(1/s) -> 1/radicand
                q = at.info if t[i] > 0 else pinv(at.info)
                del t[i:i + 2]
                extra = q if extra is None else pmul(extra, q)
                continue
        i += 1
    return tuple(t), extra


def pmul(p, q):
    if not p or not q:
        return {}
    if len(p) == 1 and () in p:
        c = p[()]
        return {m: v * c for m, v in q.items()}
    if len(q) == 1 and () in q:
        c = q[()]
        return {m: v * c for m, v in p.items()}
    if len(p) * len(q) > 12:
        return _pmul_int(p, q)
    r = {}
    rest = []
    get = r.get
    for m, c in p.items():
        for n, d in q.items():
            t, ex = mono_mul(m, n)
            if ex is None:
                v = get(t)
                r[t] = c * d if v is None else v + c * d
            else:
                rest.append(pmul(ex, {t: c * d}))
    r = {m: c for m, c in r.items() if c}
    for e in rest:
        r = padd(r, e)
    return r


_mm = {}


def _ints(p):
    D = 1
    for c in p.values():
        d = c.denominator
        if D % d:
            D = D * d // math.gcd(D, d)
    return D, [(m, c.numerator * (D // c.denominator)) for m, c in p.items()]


def _pmul_int(p, q):
    """product with integer coefficients over a common denominator"""
    D, P = _ints(p)
    E, R = _ints(q)
    r = {}
    rest = []
    get = r.get
    mm = _mm
    if len(mm) > 400000:
        mm.clear()
    for m, c in P:
        for n, d in R:
            k = (m, n)
            te = mm.get(k)
            if te is None:
                te = mm[k] = mono_mul(m, n)
            t, ex = te
            if ex is None:
                v = get(t)
                r[t] = c * d if v is None else v + c * d
            else:
                rest.append((ex, t, c * d))
    F = D * E
    r = {m: Q(c, F) for m, c in r.items() if c}
    for ex, t, c in rest:
        r = padd(r, pmul(ex, {t: Q(c, F)}))
    return r


def pinv(p):
    """polynomial for 1/p"""
    if len(p) == 1:
        (m, c), = p.items()
        t, ex = mono_mul(tuple(sorted(-x for x in m)), ())
        r = {t: 1 / c}
        return r
    # normalise the leading coefficient
    lead = min(p)
    c = p[lead]
    k = tuple(sorted((m, v / c) for m, v in p.items()))
    at = _invs.get(k)
    if at is None:
        _nid[0] += 1
        at = Node('poly_atom', None, None, _nid[0])
        at.info = dict(k)
        _atoms[at.id] = at
        _invs[k] = at
    return {(-at.id,): 1 / c}


def _nonneg_atom(i):
    a = _atoms[i]
    return a.op == 'sqrt_atom' or (a.op == 'var' and a.info[0] is not None and a.info[0] >= 0)


def psqrt(p):
    if len(p) == 1 and () in p:
        v = qsqrt(p[()])
        return {(): v} if v else {}
    if len(p) == 1:
        (m, c), = p.items()
        s = qsqrt(c) if c > 0 else ZERO
        if s and s * s == c and len(m) % 2 == 0 and all(m[i] == m[i + 1] for i in range(0, len(m), 2)):
            h = m[::2]
            if all(_nonneg_atom(abs(i)) or h.count(i) % 2 == 0 for i in h):
                return {h: s}
    if OVER[0] and any(i < 0 for m in p for i in m):
        r = _sqrt_over(p)
        if r is not None:
            return r
    # pull out a rational square from the content
    k0 = min(p)
    c = abs(p[k0])
    s = qsqrt(c)
    if s * s != c:
        c, s = ONE, ONE
    k = tuple(sorted((m, v / c) for m, v in p.items()))
    at = _sqs.get(k)
    if at is None:
        _nid[0] += 1
        at = Node('sqrt_atom', None, None, _nid[0])
        at.info = dict(k)
        _atoms[at.id] = at
        _sqs[k] = at
    return {(at.id,): s}


OVER = [False]     # write sqrt(N/D) as sqrt(N)/sqrt(D)


def _sqrt_over(p):
    """sqrt(N/D) as sqrt(N)/sqrt(D) when every denominator is positive"""
    neg = {}
    for m in p:
        cnt = {}
        for i in m:
            if i < 0:
                cnt[-i] = cnt.get(-i, 0) + 1
        for i, k in cnt.items():
            neg[i] = max(neg.get(i, 0), k)
    den = {(): ONE}
    q = p
    for i in sorted(neg, reverse=True):
        a = _atoms[i]
        k = neg[i]
        if a.op == 'poly_atom':
            lo, hi = interval(a.info)
            if lo is None or lo <= 0:
                return None
            b = a.info
        elif a.op == 'sqrt_atom' or (a.op == 'var' and a.info[0] is not None and a.info[0] >= 0):
            if k % 2:
                k += 1
            b = {(i,): ONE}
        else:
            return None
        pw = [{(): ONE}]
        for _ in range(k):
            pw.append(pmul(pw[-1], b))
        r = {}
        for m, c in q.items():
            e = m.count(-i)
            t = {tuple(x for x in m if x != -i): c}
            r = padd(r, pmul(t, pw[k - e]))
        q = r
        ib = pinv(b)
        for _ in range(k // 2):
            den = pmul(den, ib)
        if k % 2:
            den = pmul(den, pmul(psqrt(b), ib))
    if any(i < 0 for m in q for i in m):
        return None
    return pmul(psqrt(q), den)


def poly(x):
    if x.__class__ is Q:
        return {(): x} if x else {}
    if x.__class__ is not Node:
        raise ValueError('special value %r in a polynomial' % (x,))
    if x._p is not None:
        return x._p
    # iterative post-order
    st = [x]
    while st:
        n = st[-1]
        if n._p is not None:
            st.pop()
            continue
        op = n.op
        if op in ('var', 'uf', 'sqrt_atom', 'poly_atom'):
            n._p = {(n.id,): ONE}
            st.pop()
            continue
        pend = False
        for c in (n.a, n.b):
            if c.__class__ is Node and c._p is None:
                st.append(c)
                pend = True
        if pend:
            continue
        st.pop()
        a = n.a._p if n.a.__class__ is Node else poly(n.a)
        if op == 'neg':
            r = {m: -c for m, c in a.items()}
        elif op == 'sqrt':
            r = psqrt(a)
        else:
            b = n.b._p if n.b.__class__ is Node else poly(n.b)
            if op == '+':
                r = padd(a, b)
            elif op == '-':
                r = padd(a, b, -1)
            elif op == '*':
                r = pmul(a, b)
            elif op == '/':
                if not b:
                    raise ZeroDivisionError('denominator is identically zero')
                r = pmul(a, pinv(b))
            else:
                raise ValueError(op)
        n._p = r
    return x._p


def frompoly(p):
    """poly -> Node"""
    tot = ZERO
    for m, c in p.items():
        t = c
        for i in m:
            a = _atoms[abs(i)]
            t = mul(t, a) if i > 0 else div(t, a)
        tot = add(tot, t)
    return tot


def clear_denoms(p):
    """multiply a polynomial by the denominators it contains; returns polynomial without inverses
    and the list of (atom id, power) used"""
    used = []
    for _ in range(200):
        neg = {}
        for m in p:
            cnt = {}
            for i in m:
                if i < 0:
                    cnt[-i] = cnt.get(-i, 0) + 1
            for i, k in cnt.items():
                if k > neg.get(i, 0):
                    neg[i] = k
        if not neg:
            return p, used
        # innermost last: take the largest id first (it may contain smaller ones)
        i = max(neg)
        k = neg[i]
        at = _atoms[i]
        base = at.info if at.op == 'poly_atom' else {(i,): ONE}
        pw = [{(): ONE}]
        for _ in range(k):
            pw.append(pmul(pw[-1], base))
        groups = {}
        for m, c in p.items():
            e = sum(1 for t in m if t == -i)
            mm = tuple(t for t in m if t != -i)
            groups.setdefault(e, {})
            g = groups[e]
            g[mm] = g.get(mm, ZERO) + c
        r = {}
        for e, g in groups.items():
            r = padd(r, pmul(g, pw[k - e]))
        p = r
        used.append((i, k))
    raise RuntimeError('denominators do not clear')


def atoms_of(p, acc=None):
    """all atoms a polynomial depends on, with those inside definitions"""
    acc = set() if acc is None else acc
    for m in p:
        for i in m:
            i = abs(i)
            if i in acc:
                continue
            acc.add(i)
            a = _atoms[i]
            if a.op in ('sqrt_atom', 'poly_atom'):
                atoms_of(a.info, acc)
            elif a.op == 'uf':
                for x in a.b:
                    atoms_of(poly(x), acc)
    return acc


# ---------------------------------------------------------------- evaluation and bounds

import mpmath as _mp
_UFN = dict(exp=_mp.exp, log=_mp.log, sin=_mp.sin, cos=_mp.cos, tan=_mp.tan, tanh=_mp.tanh, sinh=_mp.sinh,
            cosh=_mp.cosh, atan=_mp.atan, asin=_mp.asin, acos=_mp.acos, cbrt=_mp.cbrt, erf=_mp.erf,
            vp_k13=lambda x: _mp.besselk(1 / 3., x) if x < 700 else 0.0, vp_k23=lambda x: _mp.besselk(2 / 3., x) if x < 700 else 0.0, vp_k53=lambda x: _mp.besselk(5 / 3., x) if x < 700 else 0.0)


def evalf(x, env):
    """floating evaluation (for guided search and diagnostics, never for a verdict)"""
    if x.__class__ is Q:
        return float(x)
    if x.__class__ is not Node:
        return float(x)
    memo = {}

    def ev(p):
        t = 0.0
        for m, c in p.items():
            v = float(c)
            for i in m:
                w = at(abs(i))
                v = v * w if i > 0 else v / w
            t += v
        return t

    def at(i):
        if i in memo:
            return memo[i]
        a = _atoms[i]
        if a.op == 'var':
            v = float(env[a.a])
        elif a.op == 'sqrt_atom':
            v = math.sqrt(max(ev(a.info), 0.0))
        elif a.op == 'poly_atom':
            v = ev(a.info)
        else:
            args = [ev(poly(y)) for y in a.b]
            if a.a == 'pow':
                v = math.pow(*args)
            elif a.a == 'atan2':
                v = math.atan2(*args)
            else:
                v = _UFN[a.a](*args)
                if isinstance(v, _mp.mpc):
                    raise ValueError(a.a)
                v = float(v)
        memo[i] = v
        return v
    return ev(poly(x))


INF = None


def _iv_add(a, b):
    return (None if a[0] is None or b[0] is None else a[0] + b[0],
            None if a[1] is None or b[1] is None else a[1] + b[1])


def _iv_mul(a, b):
    if a == (0, 0) or b == (0, 0):
        return (ZERO, ZERO)
    if None in a or None in b:
        # sign-aware half-unbounded products
        al, ah = a
        bl, bh = b
        if al is not None and al >= 0 and bl is not None and bl >= 0:
            return (al * bl, None if ah is None or bh is None else ah * bh)
        return (None, None)
    c = (a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1])
    return (min(c), max(c))


def _edge(f, x, d):
    """value of an increasing function at the end of a range, rounded outwards"""
    if x is None:
        return ZERO if f == 'exp' and d < 0 else None
    try:
        if f == 'log':
            if x <= 0:
                return None
            v = Q(math.log(x.numerator) - math.log(x.denominator))
            return v + d * Q(1, 10 ** 9) * (1 + abs(v) / 1000)
        if f == 'exp':
            if abs(x) > 600:
                return ZERO if d < 0 else None
            return Q(math.exp(x)) * (1 + d * Q(1, 10 ** 9))
        v = Q(abs(float(x)) ** (1 / 3.))
        return (v if x >= 0 else -v) + d * Q(1, 10 ** 9) * v
    except (OverflowError, ValueError):
        return None


def interval(p, box=None, memo=None):
    """sound bounds of a polynomial over the declared ranges"""
    memo = {} if memo is None else memo

    def at(i):
        if i in memo:
            return memo[i]
        a = _atoms[i]
        if a.op == 'var':
            r = (a.info[0], a.info[1])
            if box and a.a in box:
                r = box[a.a]
        elif a.op == 'sqrt_atom':
            lo, hi = ev(a.info)
            r = (ZERO if lo is None or lo <= 0 else qsqrt(lo) * Q(10**12 - 1, 10**12),
                 None if hi is None else qsqrt(max(hi, ZERO)) * Q(10**12 + 1, 10**12))
        elif a.op == 'poly_atom':
            r = ev(a.info)
        elif a.a in ('exp', 'log', 'cbrt'):
            lo, hi = ev(poly(a.b[0]))
            r = (_edge(a.a, lo, -1), _edge(a.a, hi, 1))
        elif a.a.startswith('vp_k'):
            r = (ZERO, None)
        elif a.a in ('sin', 'cos', 'tanh'):
            r = (Q(-1), Q(1))
        else:
            r = (None, None)
        memo[i] = r
        return r

    def inv(r):
        lo, hi = r
        if lo is not None and lo > 0:
            return (ZERO if hi is None else 1 / hi, 1 / lo)
        if hi is not None and hi < 0:
            return (1 / hi, ZERO if lo is None else 1 / lo)
        return (None, None)

    def ev(p):
        t = (ZERO, ZERO)
        for m, c in p.items():
            v = (c, c)
            j = 0
            while j < len(m):
                k = j
                while k < len(m) and m[k] == m[j]:
                    k += 1
                e = k - j
                w = at(abs(m[j]))
                if m[j] < 0:
                    w = inv(w)
                r = (ONE, ONE)
                for _ in range(e):
                    r = _iv_mul(r, w)
                if e % 2 == 0:
                    if None in r:
                        r = (ZERO, r[1])
                    elif r[0] < 0:
                        r = (ZERO, r[1])
                v = _iv_mul(v, r)
                j = k
            t = _iv_add(t, v)
        return t
    return ev(p)


def show(x, lim=400):
    if x.__class__ is not Node:
        return str(x)
    p = poly(x)
    s = []
    for m, c in list(p.items())[:12]:
        s.append('%s*%s' % (c if c.denominator < 10**6 else float(c),
                            '*'.join(('1/' if i < 0 else '') + aname(_atoms[abs(i)]) for i in m) or '1'))
    t = ' + '.join(s) or '0'
    if len(p) > 12:
        t += ' + ... (%d monomials)' % len(p)
    return t[:lim]


def aname(a):
    if a.op == 'var':
        return a.a
    if a.op == 'uf':
        return '%s(..)#%d' % (a.a, a.id)
    return '%s#%d' % ('sqrt' if a.op == 'sqrt_atom' else 'P', a.id)


# ---------------------------------------------------------------- conditions
# ('R', rel, poly-node) with rel in '<','<=','==','!=' meaning node rel 0 ; ('Z', z3 bool)

NEGREL = {'<': '>=', '<=': '>', '>=': '<', '>': '<=', '==': '!=', '!=': '=='}


def cnot(c):
    if c is True:
        return False
    if c is False:
        return True
    if c[0] == 'R':
        return ('R', NEGREL[c[1]], c[2])
    import z3
    return ('Z', z3.Not(c[1]))


def rel(op, a, b):
    """condition a op b, True/False when known"""
    if a.__class__ is int:
        a = Q(a)
    if b.__class__ is int:
        b = Q(b)
    if a.__class__ is Q and b.__class__ is Q:
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
    if a.__class__ is Special or b.__class__ is Special:
        if a.__class__ is Node or b.__class__ is Node:
            s = a if a.__class__ is Special else b
            if s != s:
                return op == '!='
            lt = (s == math.inf) if s is b else (s == -math.inf)
            return {'<': lt, '<=': lt, '>': not lt, '>=': not lt, '==': False, '!=': True}[op]
        x, y = float(a), float(b)
        return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[op]
    d = sub(a, b)
    p = poly(d)
    if not p:
        return op in ('<=', '>=', '==')
    if len(p) == 1 and () in p:
        return rel(op, p[()], ZERO)
    return ('R', op, d if d.__class__ is Node else lift(d))


def ckey(c):
    if c[0] == 'R':
        return ('R', c[1], pkey(poly(c[2])))
    return ('Z', c[1].get_id())
