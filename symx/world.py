"""Execution of one or several ranks over an image; path exploration."""
import os, time, sys
from fractions import Fraction as Q
from . import terms as T, solve, machine as M
from .terms import Node, poly
from .mem import Mem, MemError, UNDEF, F32
from .machine import CPU, Fork, Stop, Fault, Block, Unsupported, CUR, SI, mksi

STACK_TOP = 0x7fff00000000
STACK_SZ = 8 << 20
M64 = M.M64
# seconds a path may run without a new case distinction
STEP = 150


def prim(p):
    """(constant, positive scale, primitive part key) of a polynomial"""
    c = p.get((), T.ZERO)
    r = {m: v for m, v in p.items() if m}
    lead = min(r)
    s = r[lead]
    return c, s, tuple(sorted((m, v / s) for m, v in r.items()))


class World:
    __slots__ = ('cpus', 'path', 'known', 'conc', 'model', 'eng', 'cur', 'mpi', 'outs', 'trace', 'fault', 'defs', 'data', 'depth', 'symvals')

    def clone(self):
        w = World.__new__(World)
        w.cpus = [c.clone() for c in self.cpus]
        for c in w.cpus:
            c.world = w
        w.path = self.path[:]
        w.known = dict(self.known)
        w.conc = dict(self.conc)
        w.model = self.model
        w.eng = self.eng
        w.cur = self.cur
        w.mpi = self.mpi.clone() if self.mpi is not None else None
        w.outs = [dict(o) for o in self.outs]
        w.trace = self.trace[:]
        w.fault = self.fault
        w.defs = set(self.defs)
        w.data = dict(self.data)
        w.depth = self.depth
        w.symvals = dict(self.symvals)
        return w

    # -- conditions
    def assume(self, c):
        if c is True:
            return
        self.path.append(c)
        if self.model is not None and solve.ceval(c, self.model) is not True:
            self.model = None

    def _model(self):
        """a model of the path condition (or None if the solver gives up)"""
        if self.model is None:
            r, m = solve.check(self.path, want_model=True)
            if r == 'unsat':
                raise Stop('infeasible')
            if r == 'sat':
                self.model = m
        return self.model

    def feasible(self, c):
        if c is True or c is False:
            return c
        if self.model is not None:
            v = solve.ceval(c, self.model)
            if v is True:
                return True
        r, m = solve.check(solve.slice_(self.path, c) + [c])
        return r != 'unsat'

    def decide(self, c):
        p = poly(c[2])
        op = c[1]
        # canonical key
        k0 = min(m for m in p)
        s = p[k0]
        if s < 0:
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}[op]
        key = tuple(sorted((m, v / s) for m, v in p.items()))
        neg = False
        if op in ('>=', '>', '!='):
            op = T.NEGREL[op]
            neg = True
        kk = (op, key)
        v = self.known.get(kk)
        if v is not None:
            return v != neg
        lt, le, eq = (self.known.get((o, key)) for o in ('<', '<=', '=='))
        if lt is not None or le is not None or eq is not None:
            ok = {-1, 0, 1}
            if lt is not None:
                ok &= {-1} if lt else {0, 1}
            if le is not None:
                ok &= {-1, 0} if le else {1}
            if eq is not None:
                ok &= {0} if eq else {-1, 1}
            w = {'<': {-1}, '<=': {-1, 0}, '==': {0}}[op]
            if ok <= w or not ok & w:
                return (ok <= w) != neg
        lo, hi = T.interval(p)
        if s < 0:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
        v = None
        if op == '<':
            if hi is not None and hi < 0:
                v = True
            elif lo is not None and lo >= 0:
                v = False
        elif op == '<=':
            if hi is not None and hi <= 0:
                v = True
            elif lo is not None and lo > 0:
                v = False
        else:
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                v = False
        if v is None:
            n = T.div(c[2], abs(s)) if s > 0 else T.neg(T.div(c[2], abs(s)))
            ct = ('R', op, n)
            cf = ('R', T.NEGREL[op], n)
            ft = self.feasible(ct)
            if not ft:
                v = False
            elif not self.feasible(cf):
                v = True
        if v is None:
            raise Fork([(kk, True, ct), (kk, False, cf)])
        self.known[kk] = v
        return v != neg

    def implied(self, op, a):
        """a op 0 follows from comparisons of the same value already taken on this path"""
        p = poly(a)
        k0 = min(m for m in p)
        s = p[k0]
        key = tuple(sorted((m, v / s) for m, v in p.items()))
        sg = 1 if s > 0 else -1
        lt, le, eq = (self.known.get((o, key)) for o in ('<', '<=', '=='))
        ok = {-1, 0, 1}
        if lt is not None:
            ok &= {-1} if lt else {0, 1}
        if le is not None:
            ok &= {-1, 0} if le else {1}
        if eq is not None:
            ok &= {0} if eq else {-1, 1}
        ok = {x * sg for x in ok}
        return ok <= {'<': {-1}, '<=': {-1, 0}, '>': {1}, '>=': {0, 1}, '!=': {-1, 1}, '==': {0}}[op]

    def concretise(self, n, limit=None):
        """the value of an integer node; forks over all feasible values"""
        p = poly(n)
        if not p:
            return 0
        if len(p) == 1 and () in p:
            return int(p[()])
        c, s, key = prim(p)
        v = self.conc.get(key)
        if v is None:
            v = self._enum(key, n, c, s, limit or self.eng.limit)
        r = v * s + c
        if r.denominator != 1:
            raise Unsupported('non-integer value for an integer term')
        return int(r)

    def _enum(self, key, n, c, s, limit):
        base = T.div(T.sub(n, c), s)      # primitive node
        vals = []
        conds = []
        while True:
            r, m = solve.check(solve.slice_(self.path, ('R', '==', base)) + conds + [self._mention(base)], want_model=True)
            if r == 'unsat':
                break
            if r != 'sat':
                raise Unsupported('solver gave up while enumerating values of an index')
            x = solve.peval(poly(base), m, m.atoms)
            if x is None:
                raise Unsupported('cannot evaluate an index in the model')
            vals.append(x)
            conds.append(('R', '!=', T.sub(base, x)))
            if len(vals) > limit:
                # some of them are followed all the same: what they refute is real, but the case stays undecided
                self.eng.partial = 'more than %d feasible values for an index' % limit
                vals = vals[:8]
                break
        if not vals:
            raise Stop('infeasible')
        vals.sort()
        if len(vals) == 1:
            self.conc[key] = vals[0]
            return vals[0]
        raise Fork([(('conc', key), x, ('R', '==', T.sub(base, x))) for x in vals])

    def _mention(self, base):
        # a true condition that makes the variables of base appear in the model
        return ('OR', (('R', '<', base), ('R', '>=', base)))

    def trunc(self, n, w):
        """truncation of a real node to an integer"""
        p = poly(n)
        if all(T._atoms[i].op == 'var' and T._atoms[i].info[2] == 'I' if i > 0 else False for m in p for i in m) and \
                all(v.denominator == 1 for v in p.values()):
            return mksi(n, w)
        lo, hi = T.interval(p)
        key = ('T', T.pkey(p))
        v = self.conc.get(key)
        if v is not None:
            return v & M.MK[w]
        if lo is not None and hi is not None and M.trunc_int(lo) == M.trunc_int(hi):
            return M.trunc_int(lo) & M.MK[w]
        if self.eng.symtrunc:
            return self.symtrunc(n, w)
        conds = []
        alts = []
        while True:
            r, m = solve.check(solve.slice_(self.path, ('R', '==', n)) + conds + [self._mention(n)], want_model=True)
            if r == 'unsat':
                break
            if r != 'sat':
                raise Unsupported('solver gave up while enumerating cells')
            x = solve.peval(p, m, m.atoms)
            if x is None:
                x = Q(T.evalf(n, m))
            k = M.trunc_int(x)
            if k > 0:
                a, b = T.rel('>=', n, Q(k)), T.rel('<', n, Q(k + 1))
            elif k < 0:
                a, b = T.rel('>', n, Q(k - 1)), T.rel('<=', n, Q(k))
            else:
                a, b = T.rel('>', n, Q(-1)), T.rel('<', n, Q(1))
            alts.append((k, ('AND', (a, b))))
            conds.append(('OR', (T.cnot(a), T.cnot(b))))
            if len(alts) > self.eng.limit:
                self.eng.partial = 'more than %d feasible cells' % self.eng.limit
                alts = alts[:8]
                break
        if not alts:
            raise Stop('infeasible')
        if len(alts) == 1:
            self.conc[key] = alts[0][0]
            return alts[0][0] & M.MK[w]
        alts.sort()
        raise Fork([(('conc', key), k, c) for k, c in alts])

    def symtrunc(self, n, w):
        key = ('ST', T.pkey(poly(n)))
        pos = self.decide_c(T.rel('>=', n, Q(0)))
        nm = self.eng.fresh(key + (pos,))
        lo, hi = T.interval(poly(n))
        q = T.var(nm, None if lo is None else M.trunc_int(lo) - 1, None if hi is None else M.trunc_int(hi) + 1, 'I')
        if nm not in self.defs:
            self.defs.add(nm)
            if pos:
                self.assume(('R', '>=', T.sub(n, q)))
                self.assume(('R', '<', T.sub(T.sub(n, q), Q(1))))
            else:
                self.assume(('R', '<=', T.sub(n, q)))
                self.assume(('R', '>', T.add(T.sub(n, q), Q(1))))
        return mksi(q, w)

    def decide_c(self, c):
        if c is True or c is False:
            return c
        return self.decide(c)

    def floordiv(self, n, k):
        p = poly(n)
        if n.__class__ is Q:
            return Q(int(n) // k)
        if all(v.denominator == 1 and v.numerator % k == 0 for m, v in p.items() if m):
            c = p.get((), T.ZERO)
            return T.add(T.div(T.sub(n, c), Q(k)), Q(int(c) // k))
        lo, hi = T.interval(p)
        if lo is not None and hi is not None and int(lo) // k == int(hi) // k:
            return Q(int(lo) // k)
        nm = self.eng.fresh(('FD', T.pkey(p), k))
        q = T.var(nm, None if lo is None else int(lo) // k, None if hi is None else int(hi) // k, 'I')
        if nm not in self.defs:
            self.defs.add(nm)
            d = T.sub(n, T.mul(q, Q(k)))
            self.assume(('R', '>=', d))
            self.assume(('R', '<=', T.sub(d, Q(k - 1))))
        return q

    def hazard(self, key, bad, good, kind, msg):
        """an operation that can fail: one path stops here with the fault, another goes on where it does not fail"""
        hk = ('hazard', kind) + key
        if hk in self.known or not self.feasible(good):
            raise Fault(kind, msg)
        raise Fork([(hk, True, bad), (key, True, good)])

    def fits(self, n, w):
        """the node must be inside the signed (32: also unsigned) range"""
        key = ('fits', T.pkey(poly(n)), w)
        if key in self.known:
            return
        s = M.SB[w]
        hi = 2 * s if w == 32 else s
        c = ('OR', (('R', '<', T.add(n, Q(s))), ('R', '>=', T.sub(n, Q(hi)))))
        if self.feasible(c):
            good = ('AND', (('R', '>=', T.add(n, Q(s))), ('R', '<', T.sub(n, Q(hi)))))
            self.hazard(key, c, good, 'overflow', 'integer overflow is possible in %s' % T.show(n))
        self.known[key] = True

    def nonzero(self, b):
        """side condition of a division by a symbolic value"""
        p = poly(b)
        if not p:
            raise Fault('divzero', 'division by a value that is identically zero')
        if T.sign(b) == 2:
            return
        lo, hi = T.interval(p)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return
        c = ('R', '==', b)
        key = ('nz', T.pkey(p))
        if key in self.known or self.implied('!=', b):
            return
        if b.__class__ is Node and b.op in ('+', '-', '*', '/'):
            if solve.abstract(b, '<='):
                T.learn(b, 2)
                return
            if solve.abstract(b, '=='):
                self.known[key] = True
                return
        if self.feasible(c):
            if self.eng.div0 == 'report':
                self.hazard(key, c, ('R', '!=', b), 'divzero', 'division by %s which can be zero' % T.show(b, 200))
            if self.eng.div0 == 'fork':
                raise Fork([(key, True, ('R', '!=', b)), (('dz', T.pkey(p)), True, c)])
            self.eng.assumed.add('denominator %s is not zero' % T.show(b, 120))
            self.assume(('R', '!=', b))
        self.known[key] = True

    def nonneg(self, a):
        if T.sign(a):
            return
        p = poly(a)
        lo, hi = T.interval(p)
        if lo is not None and lo >= 0:
            return
        key = ('nn', T.pkey(p))
        if key in self.known or self.implied('>=', a):
            return
        c = ('R', '<', a)
        if a.__class__ is Node and a.op in ('+', '-', '*', '/') and solve.abstract(a, '<'):
            T.learn(a, 1)
            return
        if self.eng.sqrtneg == 'trust':
            self.known[key] = True
            return
        if self.feasible(c):
            if self.eng.sqrtneg == 'report':
                self.hazard(key, c, ('R', '>=', a), 'nan', 'square root of %s which can be negative' % T.show(a, 200))
            self.eng.assumed.add('radicand %s is not negative' % T.show(a, 120))
            self.assume(('R', '>=', a))
        self.known[key] = True


class Engine:
    def __init__(self, img, nranks=1, limit=200, div0='report', sqrtneg='report', symtrunc=False, ext=None, budget=600, maxpaths=100000):
        self.img = img
        self.blocks = {}
        self.nranks = nranks
        self.limit = limit
        self.partial, self.abandoned, self.on_abandon = None, 0, None
        self.div0, self.sqrtneg, self.symtrunc = div0, sqrtneg, symtrunc
        self.ext = ext or {}
        self.assumed = set()
        self._fresh = {}
        self.budget = budget
        self.maxpaths = maxpaths
        self.stat = dict(paths=0, forks=0, instrs=0, blocks=0, infeasible=0)
        self.funcs = set()
        self.base = None
        self.cfg = {}
        self.doms = {}
        self.argv = None
        self.extused = set()
        self.inputs = {}

    def fresh(self, key):
        n = self._fresh.get(key)
        if n is None:
            n = '_q%d' % len(self._fresh)
            self._fresh[key] = n
        return n

    def basemem(self):
        if self.base is None:
            m = Mem()
            for va, data, msz, fl in self.img.segs:
                m.map(va & ~4095, msz + (va & 4095), 1)
                if data:
                    m.write_bytes(va, data)
            # the stack is mapped lazily in chunks by the top 1 MB
            m.map(STACK_TOP - (1 << 20), (1 << 20) + 4096, 0)
            m.map(M.TLSBASE - 65536, 65536 + 4096, 1)
            self.base = m
        return self.base

    def newcpu(self, rank, entry):
        c = CPU.__new__(CPU)
        c.R = [0] * 16
        c.X = [UNDEF] * 16
        c.Y = [UNDEF] * 16
        c.f = ('z', 32, 0)
        c.mem = self.basemem().clone()
        c.ip = 0
        c.rank = rank
        c.data = {}
        c.n = 0
        c.status = 'run'
        c.R[4] = STACK_TOP - 256
        c.mem.st8(c.R[4], 0)       # return address 0 = finished
        c.pc = entry
        return c

    def start(self, entry, setup=None):
        w = World.__new__(World)
        w.cpus = [self.newcpu(r, self.img.sym[entry] if isinstance(entry, str) else entry) for r in range(self.nranks)]
        for c in w.cpus:
            c.world = w
        w.path = []
        w.known = {}
        w.conc = {}
        w.model = None
        w.eng = self
        w.cur = 0
        w.mpi = None
        w.outs = [dict() for _ in range(self.nranks)]
        w.trace = []
        w.fault = None
        w.defs = set()
        w.data = {}
        w.depth = 0
        w.symvals = {}
        if setup:
            setup(w)
        return w

    def block(self, pc):
        b = self.blocks.get(pc)
        if b is None:
            b = M.gen_block(self.img, pc)
            self.blocks[pc] = b
            self.stat['blocks'] += 1
            n, off = self.img.func_at(pc)
            if pc not in self.img.stubs:
                self.funcs.add(n)
        return b

    def runcpu(self, w, c):
        """run until finished / blocked"""
        CUR[0] = w
        T.DIV_HOOK[0] = w.nonzero
        T.SQRT_HOOK[0] = w.nonneg
        blocks = self.blocks
        pc = c.pc
        n = k = 0
        end = time.time() + STEP
        R, X, Y = c.R, c.X, c.Y
        try:
            while pc:
                k += 1
                if not k & 4095 and time.time() > end:
                    raise Unsupported('no end of a path within %d s' % STEP)
                c.pc = pc
                b = blocks.get(pc)
                if b is None:
                    b = self.block(pc)
                pc = b[0](c, R, X, Y)
                n += b[1]
            c.pc = 0
            c.status = 'done'
        except (Fork, Block):
            if c.pc not in self.img.stubs:
                c.pc = c.ip
            raise
        finally:
            c.n += n
            self.stat['instrs'] += n
            T.DIV_HOOK[0] = None
            T.SQRT_HOOK[0] = None

    def where(self, c):
        n, off = self.img.func_at(c.pc if c.pc in self.img.stubs else c.ip)
        bt = [c.ip]
        # shallow return-address scan
        a = c.R[4]
        try:
            for i in range(0, 4096, 8):
                v = c.mem.ld8(a + i)
                if v.__class__ is int and v in self.img.ins and v > 0x1000:
                    bt.append(v - 1)
                if len(bt) > 5:
                    break
        except Exception:
            pass
        import subprocess
        try:
            out = subprocess.run(['addr2line', '-f', '-e', self.img.path] + ['%x' % v for v in bt], stdout=subprocess.PIPE).stdout.decode().split('\n')
            loc = ['%s %s' % (out[i], out[i + 1].split('/')[-1]) for i in range(0, len(out) - 1, 2)]
        except Exception:
            loc = []
        return '%s+%#x [%s]' % (n, off, ' < '.join(loc[:5]))

    def explore(self, w0, on_path, deadline=None):
        """run every feasible path; on_path(world) is called at the end of each (world.fault set on faults)"""
        stack = [w0]
        t0 = time.time()
        deep = 0
        while stack:
            # depth first; when that does not end (a loop without bound), the oldest alternative in turn
            deep += 1
            w = stack.pop(0 if deep > 12 and deep & 1 else -1)
            if time.time() - t0 > self.budget:
                raise Unsupported('exploration budget of %d s exhausted after %d paths' % (self.budget, self.stat['paths']))
            r = self.step(w, stack)
            if r != 'fork':
                deep = 0
            if r == 'end':
                self.stat['paths'] += 1
                if self.stat['paths'] > self.maxpaths:
                    raise Unsupported('more than %d paths' % self.maxpaths)
                CUR[0] = w
                on_path(w)

    def step(self, w, stack):
        while True:
            ran = False
            alive = False
            for c in w.cpus:
                if c.status == 'done':
                    continue
                alive = True
                if c.status == 'block' and not w.mpi.ready(w, c):
                    continue
                c.status = 'run'
                ran = True
                try:
                    self.runcpu(w, c)
                except Block:
                    c.status = 'block'
                except Fork as f:
                    self.stat['forks'] += 1
                    alts = f.alts
                    for k, v, cond in reversed(alts[1:]):
                        x = w.clone()
                        self._take(x, k, v, cond)
                        stack.append(x)
                    self._take(w, *alts[0])
                    stack.append(w)
                    return 'fork'
                except Stop as s:
                    if str(s) == 'infeasible':
                        self.stat['infeasible'] += 1
                        return 'dead'
                    c.status = 'done'
                    w.trace.append('rank %d stopped: %s' % (c.rank, s))
                except MemError as e:
                    w.fault = ('memory', str(e), self.where(c), c.rank)
                    return 'end'
                except Fault as e:
                    w.fault = (e.kind, e.msg, self.where(c), c.rank)
                    return 'end'
                except Unsupported as e:
                    # this path has no answer (the case is undecided); the others are still followed
                    self.partial = '%s at %s' % (e, self.where(c))
                    self.abandoned += 1
                    if self.on_abandon and self.abandoned <= 5:
                        self.on_abandon(w, self.partial)
                    if self.abandoned > 20 or os.environ.get('VP_DEBUG'):
                        raise Unsupported(self.partial) from e
                    return 'dead'
            if not alive:
                return 'end'
            if not ran:
                w.fault = ('deadlock', 'all ranks wait: ' + '; '.join('%d: %s' % (c.rank, c.data.get('wait')) for c in w.cpus if c.status != 'done'), '', 0)
                return 'end'

    def _take(self, w, k, v, cond):
        w.depth += 1
        if k[0] == 'conc':
            w.conc[k[1]] = v
        else:
            w.known[k] = v
        w.assume(cond)


def _value(self, m, name, idx, integer=False):
    """value of a harness input"""
    f = self.inputs.get(name)
    if f is None:
        raise Unsupported('no domain for input %s' % name)
    if callable(f):
        v = f(m.world, m.rank, idx) if f.__code__.co_argcount - len(f.__defaults__ or ()) == 3 else f(idx)
    else:
        v = f
    if v.__class__ is tuple:
        lo, hi = v
        nm = '%s[%d]' % (name, idx)
        if name in self.perrank:
            nm += '@%d' % m.rank
        v = T.var(nm, lo, hi, 'I' if integer else 'R')
    return T.lift(v)


Engine.value = _value
Engine.inputs = {}
Engine.perrank = ()
