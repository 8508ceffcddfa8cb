"""Normal form of terms under the identities of exp, log, pow and the roots: exp(a+b)=exp(a)exp(b), log(ab)=log(a)+log(b), pow(x,y)=exp(y log x),
cosh/sinh/tanh through exp. Identities which need a positive argument are used only where pos() shows it."""
from fractions import Fraction as Q
from . import terms as T, lib
from .terms import Node, ONE, ZERO
HYP = {'sinh', 'cosh', 'tanh'}


def rnd(c):
    """a numeric function value (they carry some 200 bits) to 96 bits: two formulas of one number become the same"""
    if c.__class__ is not Q or c.numerator.bit_length() <= 120:
        return c
    k = 96 - (c.numerator.bit_length() - c.denominator.bit_length())
    return Q(round(c * Q(2) ** k)) / Q(2) ** k


def rounded(n):
    if n.__class__ is not Node:
        return rnd(n)
    p = T.poly(n)
    if not any(c.numerator.bit_length() > 120 for c in p.values()):
        return n
    return T.frompoly({m: rnd(c) for m, c in p.items()})


class Canon:
    def __init__(self, pos):
        self.pos_ = pos            # is this term positive wherever the goal has to hold
        self.memo, self.posm, self.base = {}, {}, {}

    def pos(self, n):
        if n.__class__ is Q:
            return n > 0
        k = T.pkey(T.poly(n))
        r = self.posm.get(k)
        if r is None:
            r = self.posm[k] = T.sign(n) == 2 or bool(self.pos_(n))
        return r

    def __call__(self, x):
        if x.__class__ is not Node:
            return x
        tot = ZERO
        for m, c in T.poly(x).items():
            t = c
            for i in m:
                a = self.atom(abs(i))
                t = T.mul(t, a) if i > 0 else T.div(t, a)
            tot = T.add(tot, t)
        return tot

    def atom(self, i):
        r = self.memo.get(i)
        if r is None:
            a = T._atoms[i]
            if a.op == 'sqrt_atom':
                r = self.root(T.frompoly(a.info), 2)
            elif a.op == 'poly_atom':
                r = self(T.frompoly(a.info))
            elif a.op == 'uf':
                r = self.uf(a)
            else:
                r = a
            self.memo[i] = r
        return r

    def uf(self, a):
        n, args = a.a, [rounded(self(x)) for x in a.b]
        if n == 'exp':
            return self.exp(args[0])
        if n == 'log':
            return self.log(args[0])
        if n == 'cbrt':
            return self.root(a.b[0], 3)
        if n == 'pow' and self.pos(args[0]):
            return self.exp(T.mul(args[1], self.log(args[0])))
        if n in HYP:
            e = self.exp(args[0])
            i = T.div(ONE, e)
            s, c = T.div(T.sub(e, i), Q(2)), T.div(T.add(e, i), Q(2))
            return s if n == 'sinh' else c if n == 'cosh' else T.div(s, c)
        if n == 'exp2':
            return self.exp(T.mul(args[0], lib.fun('log', Q(2))))
        if n in ('log2', 'log10'):
            return T.div(self.log(args[0]), lib.fun('log', Q(2 if n == 'log2' else 10)))
        if all(x.__class__ is Q for x in args):
            return lib.fun(n, *args) if len(args) == 1 else a
        return T.uf(n, *args)

    def power(self, b, r):
        """b**r for a positive b and a rational r"""
        if r.denominator == 1:
            e = int(r)
            t = ONE
            for _ in range(abs(e)):
                t = T.mul(t, b)
            return T.div(ONE, t) if e < 0 else t
        if r.denominator == 2:
            return self.power(T.sqrt(b), r * 2)
        if r.denominator % 3 == 0 and r.denominator <= 12:
            return self.power(self.croot(b), r * 3)
        if r.denominator in (4, 8):
            return self.power(T.sqrt(b), r * 2)
        return None

    def croot(self, b):
        return lib.fun('cbrt', b)

    def root(self, x, k):
        """the square or cube root, factor by factor where the factors are positive"""
        c = self(x)
        if c.__class__ is Q:
            return T.sqrt(c) if k == 2 else lib.fun('cbrt', c)
        p = T.poly(c)
        if len(p) == 1:
            (m, co), = p.items()
            if co > 0 and all(self.pos(T._atoms[abs(i)] if T._atoms[abs(i)].op != 'poly_atom' else T.frompoly(T._atoms[abs(i)].info)) for i in m):
                t = T.sqrt(co) if k == 2 else lib.fun('cbrt', co)
                for i in sorted(set(m)):
                    e = m.count(i)
                    a = T._atoms[abs(i)]
                    b = T.frompoly(a.info) if a.op == 'poly_atom' else a
                    t = T.mul(t, self.power(b, Q(e if i > 0 else -e, k)))
                return t
        return T.sqrt(c) if k == 2 else lib.fun('cbrt', c)

    def log(self, x):
        if x.__class__ is not Node:
            return lib.fun('log', x)
        p = T.poly(x)
        if len(p) != 1:
            return T.uf('log', x)
        (m, co), = p.items()
        if co <= 0:
            return T.uf('log', x)
        fs = []
        for i in m:
            a = T._atoms[abs(i)]
            b = T.frompoly(a.info) if a.op == 'poly_atom' else a
            if not self.pos(b):
                return T.uf('log', x)
            fs.append((b, a, 1 if i > 0 else -1))
        t = ZERO if co == 1 else lib.fun('log', co)
        for b, a, s in fs:
            if a.op == 'uf' and a.a == 'exp':
                l = a.b[0]
            elif a.op == 'sqrt_atom':
                l = T.div(self.log(T.frompoly(a.info)), Q(2))
            elif a.op == 'uf' and a.a == 'cbrt':
                l = T.div(self.log(a.b[0]), Q(3))
            elif len(m) == 1 and b is x:
                l = T.uf('log', b)
            else:
                l = self.log(b)
            t = T.add(t, l if s > 0 else T.neg(l))
        return t

    def exp(self, x):
        if x.__class__ is not Node:
            return lib.fun('exp', x)
        t = ONE
        for m, c in T.poly(x).items():
            if not m:
                t = T.mul(t, lib.fun('exp', c))
                continue
            if len(m) == 1 and m[0] > 0:
                a = T._atoms[m[0]]
                if a.op == 'uf' and a.a == 'log':
                    r = self.power(a.b[0], c) if abs(c) <= 64 else None
                    if r is not None:
                        t = T.mul(t, r)
                        continue
            c0 = self.base.setdefault(m, abs(c))
            r = c / c0
            f = None
            if abs(r) <= 64:
                mono = c0
                for i in m:
                    a = T._atoms[abs(i)]
                    mono = T.mul(mono, a) if i > 0 else T.div(mono, T.frompoly(a.info) if a.op == 'poly_atom' else a)
                f = self.power(T.uf('exp', mono), r)
            if f is None:
                mono = c
                for i in m:
                    a = T._atoms[abs(i)]
                    mono = T.mul(mono, a) if i > 0 else T.div(mono, T.frompoly(a.info) if a.op == 'poly_atom' else a)
                f = T.uf('exp', mono)
            t = T.mul(t, f)
        return t


def uncube(c, x):
    """atoms whose cube root occurs, written as its cube"""
    cubes = {}
    for i in [i for n in x for i in T.atoms_of(T.poly(n))]:
        a = T._atoms[i]
        if a.op == 'uf' and a.a == 'cbrt' and a.b[0].__class__ is Node:
            p = T.poly(a.b[0])
            if len(p) == 1:
                (m, co), = p.items()
                if co == 1 and len(m) == 1 and m[0] > 0:
                    cubes[m[0]] = a
    if not cubes:
        return x
    out = []
    for n in x:
        tot = ZERO
        for m, co in T.poly(n).items():
            t = co
            for i in m:
                a = T._atoms[abs(i)]
                if abs(i) in cubes:
                    k = cubes[abs(i)]
                    a = T.mul(k, T.mul(k, k))
                elif a.op == 'poly_atom':
                    a = T.frompoly(a.info)
                t = T.mul(t, a) if i > 0 else T.div(t, a)
            tot = T.add(tot, t)
        out.append(tot)
    return out


def near(p, rel=Q(1, 10**25)):
    """is this difference nothing but the last digits of numeric function values? (p: list of (a, b) coefficient pairs)"""
    return all(abs(a - b) <= rel * max(abs(a), abs(b)) for a, b in p)


def equal(a, b, pos):
    """a == b by the identities"""
    c = Canon(pos)
    x, y = c(a), c(b)
    if isinstance(x, T.Special) or isinstance(y, T.Special):
        return False
    x, y = uncube(c, (T.lift(x), T.lift(y)))
    p, q = T.poly(T.lift(x)), T.poly(T.lift(y))
    if p == q or near([(p.get(m, ZERO), q.get(m, ZERO)) for m in set(p) | set(q)]):
        return True
    d = T.poly(T.sub(T.lift(x), T.lift(y)))
    if d and len(d) < 3000 and any(i < 0 for m in d for i in m):
        # denominators do not vanish on the path
        d, _ = T.clear_denoms(d)
    return not d


def conds(cs, pos):
    """conditions with their sides in normal form"""
    c = Canon(pos)

    def go(k):
        if k is True or k is False:
            return k
        if k[0] == 'R':
            x = c(k[2])
            if isinstance(x, T.Special):
                raise ValueError('special value')
            x, = uncube(c, (T.lift(x),))
            return T.rel(k[1], x, ZERO)
        if k[0] not in ('OR', 'AND'):
            return k
        return (k[0], tuple(go(x) for x in k[1]))
    return [go(k) for k in cs]
