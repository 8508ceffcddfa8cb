"""z3 back end: feasibility of path conditions, goals, models."""
import time
from fractions import Fraction as Q
import z3
from . import terms as T
from .terms import poly, _atoms

STATS = dict(queries=0, goals=0, time=0.0, sat=0, unsat=0, unknown=0, cached=0, nf=0, maxt=0.0)
TIMEOUT = [20000]
_zv = {}
_side = {}
_zp = {}
AX = {}        # uf name -> function(atom node, z3var) -> list of z3 constraints
MONO = {'log', 'exp', 'cbrt', 'tanh', 'sinh'}      # strictly increasing functions
CONSTS = {}    # function -> {argument: value} of the known applications met so far
AXN = {}       # uf name -> function(atom node) -> list of conditions ('R', op, node)


def zvar(i):
    v = _zv.get(i)
    if v is None:
        a = _atoms[i]
        if a.op == 'var':
            lo, hi, sort, z = a.info
            v = z3.Int(a.a) if sort == 'I' else z3.Real(a.a)
            s = []
            if lo is not None:
                s.append(v >= rv(lo))
            if hi is not None:
                s.append(v <= rv(hi))
            _side[i] = s
        else:
            v = z3.Real('a%d' % i)
            _side[i] = None
        _zv[i] = v
    return v


def rv(q):
    if q.denominator == 1:
        return z3.RealVal(str(q.numerator))
    return z3.RealVal('%d/%d' % (q.numerator, q.denominator))


def zinv(i):
    v = _zv.get(-i)
    if v is None:
        v = z3.Real('inv%d' % i)
        _zv[-i] = v
    return v


def side(i):
    """side constraints of an atom (of its inverse when i<0)"""
    if i < 0:
        a = _atoms[-i]
        if a.op == 'poly_atom':
            return [zinv(-i) * zpoly(a.info) == 1]
        return [zinv(-i) * zvar(-i) == 1]
    zvar(i)
    s = _side[i]
    if s is None:
        a = _atoms[i]
        v = zvar(i)
        if a.op == 'sqrt_atom':
            s = [v >= 0, v * v == zpoly(a.info)]
        elif a.op == 'poly_atom':
            s = [v == zpoly(a.info)]
        elif a.op == 'uf':
            s = []
            if a.a in AXN:
                for c in AXN[a.a](a):
                    s.append(zcond(c))
        else:
            s = []
        _side[i] = s
    return s


def toreal(v):
    return z3.ToReal(v) if v.is_int() else v


def zpoly(p):
    k = T.pkey(p)
    e = _zp.get(k)
    if e is None:
        ts = []
        for m, c in p.items():
            f = [rv(c)] if c != 1 or not m else []
            for i in m:
                f.append(toreal(zvar(i)) if i > 0 else zinv(-i))
            t = f[0]
            for x in f[1:]:
                t = t * x
            ts.append(t)
        e = z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))
        _zp[k] = e
    return e


def _posclear(p):
    """multiply out inverses whose base is provably positive; exact for any relation"""
    if not any(i < 0 for m in p for i in m):
        return p
    for _ in range(50):
        neg = {}
        for m in p:
            cnt = {}
            for i in m:
                if i < 0:
                    cnt[-i] = cnt.get(-i, 0) + 1
            for i, k in cnt.items():
                neg[i] = max(neg.get(i, 0), k)
        cand = None
        for i in sorted(neg, reverse=True):
            a = _atoms[i]
            base = a.info if a.op == 'poly_atom' else {(i,): T.ONE}
            lo, hi = T.interval(base)
            if lo is not None and lo > 0:
                cand = (i, neg[i], base)
                break
        if cand is None:
            return p
        i, k, base = cand
        pw = [{(): T.ONE}]
        for _ in range(k):
            pw.append(T.pmul(pw[-1], base))
        groups = {}
        for m, c in p.items():
            e = sum(1 for t in m if t == -i)
            mm = tuple(t for t in m if t != -i)
            g = groups.setdefault(e, {})
            g[mm] = g.get(mm, T.ZERO) + c
        r = {}
        for e, g in groups.items():
            r = T.padd(r, T.pmul(g, pw[k - e]))
        p = r
    return p


ZR = {'<': lambda x: x < 0, '<=': lambda x: x <= 0, '>': lambda x: x > 0, '>=': lambda x: x >= 0,
      '==': lambda x: x == 0, '!=': lambda x: x != 0}


def zcond(c):
    if c is True:
        return z3.BoolVal(True)
    if c is False:
        return z3.BoolVal(False)
    if c[0] == 'R':
        return ZR[c[1]](zpoly(cpoly(c)))
    if c[0] == 'OR':
        return z3.Or([zcond(x) for x in c[1]])
    if c[0] == 'AND':
        return z3.And([zcond(x) for x in c[1]])
    return c[1]


def cpoly(c):
    n = c[2]
    if n.__class__ is not T.Node:
        return poly(n)
    if n.info is None:
        n.info = ('cp', _posclear(poly(n)))
    if n.info.__class__ is tuple and n.info and n.info[0] == 'cp':
        return n.info[1]
    return _posclear(poly(n))


def catoms(c, acc=None):
    """atoms (and inverse atoms, negative) a condition depends on, closed under definitions"""
    acc = set() if acc is None else acc
    if c is True or c is False:
        return acc
    if c[0] in ('OR', 'AND'):
        for x in c[1]:
            catoms(x, acc)
        return acc
    if c[0] == 'R':
        _patoms(cpoly(c), acc)
    elif c[0] == 'Z':
        acc |= c[2]
    return acc


def _patoms(p, acc):
    for m in p:
        for i in m:
            if i in acc:
                continue
            acc.add(i)
            a = _atoms[abs(i)]
            if a.op in ('sqrt_atom', 'poly_atom'):
                _patoms(a.info, acc)
            elif a.op == 'uf':
                for x in a.b:
                    _patoms(poly(x), acc)
                if a.a in AXN:
                    for c in AXN[a.a](a):
                        if c is not True:
                            catoms(c, acc)


_catc = {}


def cat(c):
    k = id(c)
    r = _catc.get(k)
    if r is None or r[0] is not c:
        s = catoms(c)
        r = (c, frozenset(s), frozenset(abs(i) for i in s))
        _catc[k] = r
    return r


def slice_(path, goal):
    """conditions of path connected to the goal through shared variables"""
    need = set(cat(goal)[2]) if goal is not None else set()
    rest = list(path)
    out = []
    ch = True
    while ch:
        ch = False
        nr = []
        for c in rest:
            a = cat(c)[2]
            if a & need or not a:
                out.append(c)
                if not a <= need:
                    need |= a
                    ch = True
            else:
                nr.append(c)
        rest = nr
    return out


_qcache = {}
_mono = {}


class Model(dict):
    """values of the variables; atoms: values the solver chose for every atom, function applications included"""
    def __init__(self):
        self.atoms = {}


def mono(atoms):
    """monotonicity of log and exp between the applications of a query and against the known values"""
    fs = {}
    for i in atoms:
        a = _atoms[abs(i)]
        if a.op == 'uf' and a.a in MONO:
            fs.setdefault(a.a, set()).add(abs(i))
    out = []
    for name, ids in fs.items():
        cs = list(CONSTS.get(name, {}).items())[:16]
        L = sorted(ids)
        V = sorted(i for i in L if -i in atoms) if name == 'exp' else []
        key = (name, tuple(L), tuple(V), len(cs))
        r = _mono.get(key)
        if r is None:
            r = []
            xs = [(zpoly(poly(_atoms[i].b[0])), toreal(zvar(i))) for i in L]
            for x, f in xs:
                if name == 'exp':
                    r.append(f > 0)
                    r.append(f >= 1 + x)
                elif name == 'log':
                    r += [f <= x - 1, (f > 0) == (x > 1), (f == 0) == (x == 1)]
                elif name == 'tanh':
                    r += [(f > 0) == (x > 0), (f == 0) == (x == 0), f < 1, f > -1]
                elif name == 'sinh':
                    r += [(f > 0) == (x > 0), (f == 0) == (x == 0)]
                else:
                    r.append(f * f * f == x)
                    r.append((f > 0) == (x > 0))
                    r.append((f == 0) == (x == 0))
                for c, v in cs:
                    r.append(z3.Implies(x < rv(c), f < rv(v)))
                    r.append(z3.Implies(x > rv(c), f > rv(v)))
                    r.append(z3.Implies(x == rv(c), f == rv(v)))
            for i in V:
                x, g = zpoly(poly(_atoms[i].b[0])), toreal(zvar(-i))
                r += [g > 0, g >= 1 - x, (g < 1) == (x > 0)]
            if len(xs) <= 6:
                for j in range(len(xs)):
                    for k in range(j):
                        (x, f), (y, g) = xs[j], xs[k]
                        r.append(z3.Implies(x < y, f < g))
                        r.append(z3.Implies(x > y, f > g))
                        r.append(z3.Implies(x == y, f == g))
            _mono[key] = r
        out += r
    return out


def check(conds, want_model=False, timeout=None):
    """'sat' / 'unsat' / 'unknown' for the conjunction (with atom side conditions); model as dict"""
    zs = []
    atoms = set()
    for c in conds:
        if c is True:
            continue
        if c is False:
            return ('unsat', None)
        zs.append(zcond(c))
        atoms |= cat(c)[1]
    for i in list(atoms):
        # side conditions (inverse and root definitions) of everything mentioned
        zs += side(i)
        if i < 0 and _atoms[-i].op != 'poly_atom':
            zs += side(-i)
            atoms.add(-i)
    zs += mono(atoms)
    key = frozenset(z.get_id() for z in zs)
    r = _qcache.get(key)
    if r is not None and (r[0] != 'sat' or r[1] is not None or not want_model):
        STATS['cached'] += 1
        return r[:2]
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', timeout or TIMEOUT[0])
    s.add(zs)
    res = s.check()
    dt = time.time() - t0
    STATS['queries'] += 1
    STATS['time'] += dt
    STATS['maxt'] = max(STATS['maxt'], dt)
    rs = str(res)
    STATS[rs] += 1
    model = None
    if rs == 'sat':
        m = s.model()
        model = Model()
        for i in atoms:
            a = _atoms[abs(i)]
            if i > 0:
                v = m.eval(zvar(i), model_completion=True)
                if z3.is_int_value(v) or z3.is_rational_value(v):
                    v = Q(v.as_fraction()) if z3.is_rational_value(v) else Q(v.as_long())
                elif z3.is_algebraic_value(v):
                    w = v.approx(40)
                    v = Q(w.numerator_as_long(), w.denominator_as_long())
                else:
                    continue
                model.atoms[i] = v
                if a.op == 'var':
                    model[a.a] = v
    _qcache[key] = (rs, model, zs)
    return (rs, model)


_abs = {}


def abstract(x, rel, depths=(3, 5, 8), timeout=3000):
    """x rel 0 is impossible for every value of the sub-terms below some depth (only their structural sign is kept)?"""
    key = (x.id, rel)
    if key in _abs:
        return _abs[key]
    r = False
    for depth in depths:
        zs, seen, inv = [], {}, [0]

        def conv(n, d):
            if n.__class__ is Q:
                return rv(n)
            v = seen.get(n.id)
            if v is not None and v[1] <= d:
                return v[0]
            op = n.op
            if d < depth and op in ('+', '-', '*', '/', 'neg', 'sqrt'):
                a = conv(n.a, d + 1)
                if op == 'neg':
                    z = -a
                elif op == 'sqrt':
                    z = z3.Real('q%d' % n.id)
                    zs.extend([z >= 0, z * z == a])
                else:
                    b = a if n.b is n.a else conv(n.b, d + 1)
                    if op == '/':
                        z = z3.Real('q%d' % n.id)
                        zs.extend([z * b == a])
                    else:
                        z = a + b if op == '+' else a - b if op == '-' else a * b
            else:
                z = z3.Real('v%d' % n.id)
                sg = T.sign(n)
                if sg:
                    zs.append(z > 0 if sg == 2 else z >= 0)
            seen[n.id] = (z, d)
            return z
        z = conv(x, 0)
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(zs)
        s.add(z <= 0 if rel == '<=' else z == 0 if rel == '==' else z < 0)
        t0 = time.time()
        a = str(s.check())
        STATS['queries'] += 1
        STATS['time'] += time.time() - t0
        STATS[a] += 1
        if a == 'unsat':
            r = True
            break
    _abs[key] = r
    return r


def peval(p, env, at=None):
    """exact evaluation of a polynomial over rational variable values; None when not rational"""
    t = T.ZERO
    for m, c in p.items():
        v = c
        for i in m:
            a = _atoms[abs(i)]
            if at and abs(i) in at:
                x = at[abs(i)]
            elif a.op == 'var':
                x = env.get(a.a)
                if x is None:
                    return None
            elif a.op == 'poly_atom':
                x = peval(a.info, env, at)
                if x is None:
                    return None
            else:
                return None
            if i > 0:
                v = v * x
            else:
                if not x:
                    return None
                v = v / x
        t += v
    return t


def ceval(c, env):
    """True/False/None"""
    if c is True or c is False:
        return c
    if c[0] in ('OR', 'AND'):
        vs = [ceval(x, env) for x in c[1]]
        if None in vs:
            return None
        return any(vs) if c[0] == 'OR' else all(vs)
    if c[0] != 'R':
        return None
    v = peval(poly(c[2]), env)
    if v is None:
        return None
    return {'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0, '==': v == 0, '!=': v != 0}[c[1]]
