"""Cases, goals, native replay, evidence."""
import os, sys, json, time, math, subprocess, traceback, random, shutil
from fractions import Fraction as Q
import multiprocessing as mp
sys.set_int_max_str_digits(0)
from . import terms as T, solve, build, machine as M, lib, canon
from .terms import Node, Special
from .world import Engine
from .elfimg import Image
from .machine import Unsupported
from .mem import UNDEF, UndefUsed


def _hook(t, e, b):
    # a check that cannot start (build failure, internal error) gives no answer: neither 0 nor 1
    traceback.print_exception(t, e, b)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(2)


sys.excepthook = _hook


VERIF = build.VERIF
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


class Prog:
    """an executable: repository objects + driver, for the engine and natively"""

    def __init__(self, name, objs, entry, libs=(), cxx=False, lang='f', natobjs=None):
        self.natobjs = natobjs
        self.name, self.objs, self.entry, self.libs, self.cxx = name, list(objs), entry, list(libs), cxx
        self._img = None
        self._path = None
        self._exe = {}
        self.asan_builder = None

    @property
    def img(self):
        if self._img is None:
            self._img = Image(self._path or build.link_image(self.objs, self.entry, self.name))
        return self._img

    def exe(self, random=False):
        k = random
        if k not in self._exe:
            d = build.scratch()
            out = os.path.join(d, '%s_native%d' % (self.name, k))
            c = os.path.join(d, '%s_native%d.o' % (self.name, k))
            build.run(['gcc', '-O1', '-w', '-fno-pic', '-DENTRY=' + self.entry] + (['-DVP_RANDOM'] if k else []) + ['-c', os.path.join(VERIF, 'symx', 'vp_native.c'), '-o', c])
            if self.cxx:
                build.run(['g++', '-no-pie', '-o', out] + (self.natobjs or self.objs) + [c, '-lm'] + self.libs)
            else:
                build.run(['gfortran', '-no-pie', '-o', out] + self.objs + [c] + self.libs +
                          ['-L/usr/lib/x86_64-linux-gnu/openmpi/lib', '-lmpi_usempif08', '-lmpi_usempi_ignore_tkr', '-lmpi_mpifh', '-lmpi', '-lfftw3', '-lm', '-Wl,--allow-multiple-definition', '-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all'])
            self._exe[k] = out
        return self._exe[k]


def fval(x, env):
    """double value of a term under a model"""
    if x.__class__ is Q:
        return float(x)
    if x.__class__ is Node:
        return T.evalf(x, env)
    return float(x)


class Ctx:
    """what a specification sees: inputs, outputs, and the goal methods"""

    def __init__(self, case, outs, sym, native=False, world=None, fault=None):
        self.case, self.outs, self._sym, self.native, self.world = case, outs, sym, native, world
        self.cfg = case.cfg
        self.goals = []
        self.fault = fault
        self.nranks = case.nranks
        self.failed = []
        self.extra = []

    def out(self, name, rank=0):
        return self.outs[rank][name]

    def has(self, name, rank=0):
        return name in self.outs[rank]

    def iout(self, name, rank=0):
        """integer outputs (known)"""
        r = []
        for v in self.outs[rank][name]:
            if v.__class__ is Q and v.denominator == 1:
                r.append(int(v))
            elif isinstance(v, float) and not isinstance(v, Special) and v == int(v):
                r.append(int(v))
            else:
                r.append(v)
        return r

    def sym(self, name, idx=0, rank=0):
        v = self._sym.get((rank, name, idx))
        if v is None:
            if name not in self.case.inputs:
                raise KeyError((rank, name, idx))
            if self.native:
                v = self._sym.get((-1, name, idx))
                if v is None:
                    v = somevalue(self.case, name, idx)
                if v is None:
                    raise NoValue((rank, name, idx))
                self._sym[(rank, name, idx)] = v
                return v
            # an input which the program did not ask for: any value of its domain
            from types import SimpleNamespace
            v = self._sym[(rank, name, idx)] = self.world.eng.value(SimpleNamespace(world=self.world, rank=rank), name, idx)
        return v

    def num(self, x):
        """lift a constant into the arithmetic of this context"""
        if self.native:
            return float(x)
        return T.lift(x)

    def sqrt(self, x):
        if self.native:
            return math.sqrt(max(x, 0.0))
        return T.sqrt(T.lift(x))

    def fun(self, name, x):
        if self.native:
            if name.startswith('vp_k') and not x > 0:
                return math.nan
            return float(lib._mpf[name](x)) if name != 'cbrt' else math.copysign(abs(x) ** (1 / 3.), x)
        return lib.fun(name, T.lift(x))

    def pow(self, x, y):
        if self.native:
            return float(x) ** float(y)
        return lib.powr(T.lift(x), T.lift(y))

    # case splits of the specification
    def _pieces(self, x, half):
        if self.native:
            yield math.floor(x + 0.5) if half else math.floor(x)
            return
        x = T.lift(x)
        if x.__class__ is Q:
            y = x + Q(1, 2) if half else x
            yield y.numerator // y.denominator
            return
        h = Q(1, 2) if half else Q(0)
        conds = []
        ks = []
        base = list(self.world.path) + list(self.extra)
        while True:
            pr = ('R', '==', x)
            r, m = solve.check(solve.slice_(base, pr) + conds + [('OR', (('R', '<', x), ('R', '>=', x)))], want_model=True)
            if r == 'unsat':
                break
            if r != 'sat':
                raise Unsupported('solver gave up in a specification split')
            v = solve.peval(T.poly(x), m)
            if v is None:
                v = Q(T.evalf(x, m))
            y = v + h
            k = y.numerator // y.denominator
            a, b = T.rel('>=', x, k - h), T.rel('<', x, k + 1 - h)
            ks.append((k, [c for c in (a, b) if c is not True]))
            conds.append(('OR', tuple(c for c in (T.cnot(a), T.cnot(b)) if c is not False)))
            if len(ks) > 200:
                raise Unsupported('too many pieces')
        for k, cs in sorted(ks):
            n = len(self.extra)
            if len(ks) > 1:
                self.extra += cs
            yield k
            del self.extra[n:]

    def floors(self, x):
        return self._pieces(x, False)

    def nints(self, x):
        return self._pieces(x, True)

    def when(self, *conds):
        """with ctx.when((rel, a, b), ...) as possible: goals stated under these conditions"""
        return When(self, conds)

    # goals
    def eq(self, label, a, b, tol=0, scale=1):
        """a == b ; tol: allowed |a-b| in units of scale (0 = exactly, over the reals)"""
        self.goals.append(('eq', label, a, b, tol, scale, tuple(self.extra)))

    def le(self, label, a, b, slack=0, exact=False):
        """exact: only compares inputs, so that rounding has no part in it"""
        self.goals.append(('le', label, a, b, slack, None if exact else 1, tuple(self.extra)))

    def lt(self, label, a, b, exact=False):
        self.goals.append(('lt', label, a, b, 0, None if exact else 1, tuple(self.extra)))

    def true(self, label, ok):
        self.goals.append(('true', label, bool(ok), None, 0, 1, tuple(self.extra)))

    def truth(self, label, cond):
        """cond: a T.rel condition / ('OR',..) (engine) or bool (native)"""
        self.goals.append(('cond', label, cond, None, 0, 1, tuple(self.extra)))


class When:
    def __init__(self, ctx, conds):
        self.ctx, self.conds = ctx, conds

    def __enter__(self):
        self.k = len(self.ctx.extra)
        if self.ctx.native:
            return all({'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[r] for r, a, b in self.conds)
        cs = [T.rel(r, T.lift(a), T.lift(b)) for r, a, b in self.conds]
        if False in cs:
            return False
        self.ctx.extra += [c for c in cs if c is not True]
        return True

    def __exit__(self, *a):
        del self.ctx.extra[self.k:]


class Case:
    def __init__(self, name, prog, cfg, inputs, spec, nranks=1, limit=100, div0='report', sqrtneg='report', symtrunc=False,
                 expect_fault=None, ntol=1e-7, perrank=(), maxpaths=20000, budget=600, validate=3, argv=None, setup=None, random=False, ext=None,
                 bounds='', pre=None, mpi=False, native_fault_ok=False, entry=None, known=None, timeout=None, concrete_spec=None):
        self.__dict__.update(locals())
        del self.__dict__['self']
        self.sig = self.sig_()

    def sig_(self):
        """first values of the input functions: they must not depend on variables which change after the case is made"""
        r, old = {}, set(T.VARS)
        for n, f in self.inputs.items():
            if callable(f):
                L = []
                for i in range(10):
                    try:
                        x = f(i)
                        L.append(x.id if isinstance(x, Node) else tuple(y.id if isinstance(y, Node) else str(y) for y in x) if isinstance(x, tuple) else str(x))
                    except Exception as e:
                        L.append(type(e).__name__)
                r[n] = L
        for n in set(T.VARS) - old:      # variables of one case only: their range is that case's
            del T.VARS[n]
        return r


def somevalue(case, name, idx):
    """a value of the domain of an input which the symbolic path had not asked for; None if there is none to be had"""
    v = case.inputs.get(name)
    try:
        if callable(v):
            v = v(int(idx))
        if v.__class__ is tuple:
            v = (Q(v[0]) + Q(v[1])) / 2
        if v.__class__ is Node:
            v = fval(v, full_env(None, getattr(case, 'env', None)))
    except Exception:
        return None
    return float(v) if v.__class__ in (Q, int, float) else None


def run_native(case, vals, rnd=False, timeout=60, mpi=None):
    """as run_native_, giving some value to inputs which the symbolic path had not asked for (it ended in a fault); they are added to vals"""
    for _ in range(64):
        outs, st = run_native_(case, vals, rnd, timeout, mpi)
        if st['rc'] != 77 or 'missing ' not in st['txt']:
            break
        name, idx = st['txt'].rsplit('missing ', 1)[1].split()[:2]
        v = somevalue(case, name, idx)
        if v is None:
            break
        vals[(-1, name, int(idx))] = v
    return outs, st


_libc = None


def with_parent():
    """a native run ends with the worker that started it (a changed program may never end by itself)"""
    if _libc is not None:
        _libc.prctl(1, 9, 0, 0, 0)


try:
    import ctypes
    _libc = ctypes.CDLL(None)
except OSError:
    pass


def run_native_(case, vals, rnd=False, timeout=60, mpi=None):
    """run the driver natively with the given inputs; returns (outs per rank, status)"""
    import tempfile
    d = tempfile.mkdtemp(prefix='rp.', dir=build.scratch())
    vf = os.path.join(d, 'values')
    with open(vf, 'w') as f:
        for k, v in case.cfg.items():
            if not isinstance(v, str):
                f.write('-2 %s 0 %.17g\n' % (k, float(v)))
        for (r, n, i), v in vals.items():
            f.write('%d %s %d %.17g\n' % (r, n, i, v))
    env = dict(os.environ, VP_VALUES=vf, VP_OUT=os.path.join(d, 'out'), OMP_NUM_THREADS='1',
               OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_btl_vader_single_copy_mechanism='none',
               OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_btl='self,vader' , OMPI_MCA_plm_rsh_agent='', TMPDIR=d)
    exe = case.prog.exe(bool(case.random))
    use_mpi = case.mpi or case.nranks > 1
    cmd = [exe]
    if case.nranks > 1:
        cmd = ['mpirun', '--oversubscribe', '-n', str(case.nranks), exe]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=d, timeout=timeout, preexec_fn=with_parent)
        rc, txt = p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        rc, txt = 'timeout', ''
    outs = []
    done = True
    for r in range(case.nranks):
        o = {}
        ok = False
        try:
            for l in open(os.path.join(d, 'out.%d' % r)):
                t = l.split()
                if t[0] == 'out':
                    o[t[1]] = o.get(t[1], []) + [float(x) for x in t[3:]]
                elif t[0] == 'done':
                    ok = True
                elif t[0] == 'missing':
                    txt += l
        except FileNotFoundError:
            pass
        done = done and ok
        outs.append(o)
    shutil.rmtree(d, ignore_errors=True)
    return outs, dict(rc=rc, done=done, txt=txt[-1500:])


def goal_float(g, ntol):
    """evaluate a goal on native values; returns None if satisfied, else description"""
    k, label, a, b, tol, scale, extra = g
    if k == 'true':
        return None if a else label
    if k == 'cond':
        return None if a is True or a is None else label
    a, b = float(a), float(b)
    if scale is None:
        ntol, scale = 0, 1
    s = max(abs(a), abs(b), float(scale) if scale.__class__ is not Node else 1.0, 1e-300)
    if k == 'eq':
        t = max(ntol, 4 * float(tol)) * s if not isinstance(scale, Node) else ntol * s
        ok = abs(a - b) <= max(t, ntol * float(scale) if not isinstance(scale, Node) else 0)
    elif k == 'le':
        ok = a <= b + float(tol if not isinstance(tol, Node) else 0) + ntol * s
    else:
        ok = a < b + ntol * s
    if a != a or b != b:
        ok = False
    return None if ok else '%s: got %.12g, expected %s%.12g' % (label, a, '' if k == 'eq' else ('<= ' if k == 'le' else '< '), b)


def neg_goal(g):
    """condition whose satisfiability refutes the goal; True = refuted outright, False = holds"""
    k, label, a, b, tol, scale, extra = g
    if k == 'true':
        return not a
    if k == 'cond':
        c = a
        if c is True or c is False:
            return not c
        return cneg(c)
    if a is UNDEF or b is UNDEF:
        return True
    a, b = T.lift(a) if not isinstance(a, Special) else a, T.lift(b) if not isinstance(b, Special) else b
    if isinstance(a, Special) or isinstance(b, Special):
        if k == 'eq':
            return not (isinstance(a, Special) and isinstance(b, Special) and a == b)
        r = T.rel({'le': '<=', 'lt': '<'}[k], a, b)
        return not r
    if k == 'eq':
        d = T.sub(a, b)
        p = T.poly(d)
        if not p:
            return False
        if a.__class__ is Q and b.__class__ is Q and abs(a - b) <= max(abs(a), abs(b)) * Q(1, 10**25):
            return False      # known values: square roots of known values carry 220 bits
        if not tol:
            if len(p) < 5000 and any(i < 0 for m in p for i in m):
                # denominators were shown not to vanish: multiply them out
                p2, used = T.clear_denoms(p)
                if not p2:
                    return False
            if len(p) < 200 and T.sign(a) and T.sign(b):
                # neither is negative: compare the squares
                p2, used = T.clear_denoms(T.poly(T.sub(T.mul(a, a), T.mul(b, b))))
                if not p2:
                    return False
            return T.rel('!=', d, T.ZERO)
        t = T.mul(T.lift(tol), T.lift(scale))
        # interval bound first
        if t.__class__ is Q:
            lo, hi = T.interval(p)
            if lo is not None and hi is not None and lo >= -t and hi <= t:
                return False
        c1, c2 = T.rel('>', d, t), T.rel('<', d, T.neg(t))
        cs = [c for c in (c1, c2) if c is not False]
        if not cs:
            return False
        if True in cs:
            return True
        return ('OR', tuple(cs)) if len(cs) > 1 else cs[0]
    if k == 'le':
        if not tol and a.__class__ is Q and a <= 0 and T.sign(b):
            return False
        c = T.rel('>', T.sub(a, b), T.lift(tol))
    else:
        c = T.rel('>=', T.sub(a, b), T.ZERO)
    if c is not False and not tol:
        # values of functions at known arguments carry 220 bits: two formulas of one number differ in the last of them
        d = T.sub(a, b)
        if d.__class__ is Q or any(x.numerator.bit_length() > 120 for x in T.poly(d).values()):
            s = b if T.sign(b) else a if T.sign(a) else None
            if d.__class__ is Q and a.__class__ is Q and b.__class__ is Q:
                if d.numerator.bit_length() > 120 and abs(d) <= max(abs(a), abs(b)) * Q(1, 10**25):
                    return False
            elif s is not None and d.__class__ is not Q:
                c = T.rel('>' if k == 'le' else '>=', d, T.mul(s, Q(1, 10**25)))
    return c


def cneg(c):
    if c is True or c is False:
        return not c
    if c[0] == 'R':
        return ('R', T.NEGREL[c[1]], c[2])
    if c[0] == 'OR':
        r = [cneg(x) for x in c[1]]
        if False in r:
            return False
        r = [x for x in r if x is not True]
        return ('AND', tuple(r)) if r else True
    if c[0] == 'AND':
        r = [cneg(x) for x in c[1]]
        if True in r:
            return True
        r = [x for x in r if x is not False]
        return ('OR', tuple(r)) if r else False
    raise ValueError(c)


def sample_model(model, atoms_vars):
    return model


def full_env(world, model, seed=0):
    """values for all variables of a path: the model where it speaks, otherwise inside the declared range"""
    rnd = random.Random(seed)
    env = {}
    for n, v in T.VARS.items():
        x = (model or {}).get(n)
        if x is None:
            lo, hi = v.info[0], v.info[1]
            if lo is None and hi is None:
                lo, hi = Q(-1), Q(1)
            elif lo is None:
                lo = hi - 1
            elif hi is None:
                hi = lo + 1
            x = lo + (hi - lo) * Q(rnd.randint(1, 999), 1000)
            if v.info[2] == 'I':
                x = Q(int(x))
        # never outside the declared range
        if v.info[0] is not None and x < v.info[0]:
            x = v.info[0]
        if v.info[1] is not None and x > v.info[1]:
            x = v.info[1]
        env[n] = x
    return env


class NoValue(Exception):
    """an input of the specification that the native run was not given"""


class Stop(Exception):
    """a violation is confirmed: the case needs no further exploration"""


def matches(k, v):
    return k['case'] in v['case'] and k['label'] in v['label'] and k.get('detail', '') in str(v['detail']) + str(v['native'])


def run_case(case):
    """explore one case; returns a picklable dict"""
    t0 = time.time()
    if case.sig != case.sig_():
        raise Unsupported('the inputs of %s changed after it was made: %s' % (case.name, [n for n, v in case.sig_().items() if v != case.sig[n]]))
    for k in solve.STATS:
        solve.STATS[k] = 0 if k not in ('time', 'maxt') else 0.0
    if case.timeout:
        solve.TIMEOUT[0] = case.timeout
    res = dict(case=case.name, paths=0, goals=0, nf=0, z3=0, violations=[], unknown=[], validated=0, notes=[], faults=0, samples=[], bounds=case.bounds)
    eng = Engine(case.prog.img, nranks=case.nranks, limit=case.limit, div0=case.div0, sqrtneg=case.sqrtneg, symtrunc=case.symtrunc,
                 budget=case.budget, maxpaths=case.maxpaths)
    eng.cfg = case.cfg
    eng.inputs = case.inputs
    eng.perrank = case.perrank
    eng.argv = case.argv
    if case.ext:
        eng.extover = case.ext
    if case.nranks > 1 or case.mpi:
        from . import mpi as MPI
        MPI.attach(eng)
    w0 = eng.start(case.prog.entry)
    if case.nranks > 1 or case.mpi:
        MPI.init_world(w0)
    if case.pre:
        for c in case.pre(w0):
            w0.assume(c)
    seenv = set()

    def on_path(w):
        res['paths'] += 1
        if w.fault is not None:
            exp = case.expect_fault(w) if case.expect_fault else False
            if exp:
                res['faults'] += 1
                return
            record(w, None, '%s: %s (%s)' % (w.fault[0], w.fault[1], w.fault[2]), True)
            return
        ctx = Ctx(case, w.outs, w.symvals, world=w)
        try:
            case.spec(ctx)
        except UndefUsed:
            w.fault = ('uninit', 'an output of the specification depends on uninitialised memory', '')
            record(w, None, '%s: %s' % (w.fault[0], w.fault[1]), True)
            return
        except (KeyError, IndexError) as e:
            # an output of another size than the specification knows: decided by the goals before it, or by its absence
            if not w.outs or not any(w.outs):
                raise
            ctx.goals.append(('true', 'outputs of the specification (%s)' % str(e)[:60], False, None, 0, None, tuple(ctx.extra)))
        feas = {}
        for g in ctx.goals:
            res['goals'] += 1
            ng = neg_goal(g)
            if ng is False:
                res['nf'] += 1
                continue
            if g[6]:
                # is the case of the specification possible on this path
                if g[6] not in feas:
                    feas[g[6]] = solve.check(list(w.path) + list(g[6]))[0] != 'unsat'
                if not feas[g[6]]:
                    res['z3'] += 1
                    continue
            if ng is True:
                record(w, g, None, False)
                continue
            pc = w.path + list(g[6])
            sl = solve.slice_(pc, ng)
            r, m = solve.check(sl + [ng], want_model=True)
            res['z3'] += 1
            if r == 'unsat':
                continue
            if g[0] == 'eq' and T.HASUF[0] and isinstance(T.lift(g[2]), (Node, Q)) and isinstance(T.lift(g[3]), (Node, Q)) and identity(pc, g):
                continue
            if g[0] in ('eq', 'le', 'lt') and T.HASUF[0] and normal(pc, ng):
                continue
            if r == 'unknown':
                # undecided: a concrete run of this path that breaks the goal still refutes it
                nv, nu = len(res['violations']), len(res.get('unconfirmed', []))
                record(w, g, None, False)
                if len(res['violations']) == nv:
                    del res.get('unconfirmed', [])[nu:]
                    res['unknown'].append('%s: %s' % (case.name, g[1]))
                continue
            record(w, g, None, False, m, ng)
        if not ctx.goals:
            res['notes'].append('path without goals')
        if res['validated'] < case.validate and (res['paths'] & (res['paths'] - 1)) == 0:
            validate(w, ctx)
        if len(res['samples']) < 2:
            res['samples'].append(describe(w, ctx))

    def identity(pc, g):
        """equal by the laws of the elementary functions"""
        def pos(n):
            c = ('R', '<=', n)
            return solve.check(solve.slice_(pc, c) + [c], timeout=2000)[0] == 'unsat'
        try:
            return canon.equal(g[2], g[3], pos)
        except (ZeroDivisionError, RuntimeError, ValueError, RecursionError):
            return False

    def normal(pc, ng):
        """no counterexample once the conditions are in the normal form of the elementary functions"""
        if spent[1] > 60:
            return False
        t1 = time.time()

        def pos(n):
            c = ('R', '<=', n)
            return solve.check(solve.slice_(pc, c) + [c], timeout=2000)[0] == 'unsat'
        try:
            cs = canon.conds(list(pc) + [ng], pos)
            if False in cs:
                return True
            ng, cs = cs[-1], [c for c in cs[:-1] if c is not True]
            if os.environ.get('VP_NORMAL'):
                print('NORMAL', cshow(ng), [cshow(c) for c in cs])
            return ng is not True and solve.check(solve.slice_(cs, ng) + [ng], timeout=10000)[0] == 'unsat'
        except (ZeroDivisionError, RuntimeError, ValueError, RecursionError):
            return False
        finally:
            spent[1] += time.time() - t1

    def describe(w, ctx):
        s = dict(case=case.name, conditions=[cshow(c) for c in w.path[:6]], goals=len(ctx.goals))
        if ctx.goals:
            g = ctx.goals[0]
            if g[0] in ('eq', 'le', 'lt'):
                s['goal'] = '%s: %s %s %s' % (g[1], T.show(g[2], 160), {'eq': '==', 'le': '<=', 'lt': '<'}[g[0]], T.show(g[3], 160))
            else:
                s['goal'] = g[1]
        return s

    def inputs_of(w, env):
        vals = {}
        for k, v in w.symvals.items():
            vals[k] = fval(v, env)
        return vals

    def path_model(w, extra=None, ex=()):
        conds = list(w.path) + list(ex) + ([extra] if extra is not None and extra is not True else [])
        if not conds:
            return {}
        r, m = solve.check(conds, want_model=True, timeout=20000)
        if r == 'sat':
            return m
        return None if r == 'unsat' else {}

    def margin(w):
        """strengthen the path condition so that rounding does not change the branch taken"""
        for eps in (Q(1, 1000), Q(1, 10**5)):
            cs = []
            for c in w.path:
                if c[0] == 'R' and c[1] in ('<', '<=', '>', '>='):
                    n = T.add(c[2], eps) if c[1] in ('<', '<=') else T.sub(c[2], eps)
                    cs.append(('R', c[1], n))
                elif c[0] == 'AND' and all(x is True or x[0] == 'R' for x in c[1]):
                    cs.append(('AND', tuple(x if x is True or x[1] not in ('<', '<=', '>', '>=') else ('R', x[1], T.add(x[2], eps) if x[1] in ('<', '<=') else T.sub(x[2], eps)) for x in c[1])))
                else:
                    cs.append(c)
            r, m = solve.check(cs, want_model=True, timeout=5000)
            if r == 'sat':
                return m
        return path_model(w)

    def validate(w, ctx):
        """run the same path natively and compare the outputs with the symbolic ones"""
        m = margin(w)
        if m is None:
            return
        env = full_env(w, m, SEED + res['paths'])
        if T.HASUF[0] and not follows(w, env):
            env = search(w, None, m)
            if env is None:
                return
        try:
            vals = inputs_of(w, env)
        except (ZeroDivisionError, OverflowError, ValueError):
            return
        outs, st = run_native(case, vals)
        if not st['done']:
            res['notes'].append('native run failed: %s %s' % (st['rc'], st['txt'][-300:]))
            res['mismatch'] = res.get('mismatch', 0) + 1
            return
        bad = []
        big = max([abs(x) for o in outs for v in o.values() for x in v if abs(x) < 1e300] + [0.0]) * 1e-13
        for r in range(case.nranks):
            for n, vs in w.outs[r].items():
                nv = outs[r].get(n)
                if nv is None or len(nv) != len(vs):
                    bad.append('%s: native has %s values, engine %d' % (n, None if nv is None else len(nv), len(vs)))
                    continue
                try:
                    ev = [x if x is UNDEF else fval(x, env) for x in vs]
                except (ZeroDivisionError, OverflowError, ValueError):
                    continue
                sc = max([abs(x) for x in ev if x is not UNDEF and x == x and abs(x) != math.inf] + [1e-300])
                for i, (a, b) in enumerate(zip(ev, nv)):
                    if a is UNDEF:
                        continue
                    if not (abs(a - b) <= max(1e-6 * max(abs(a), abs(b)), case.ntol * sc, big, 1e-40)) and not (a != a and b != b) and a != b:
                        bad.append('%s(%d): engine %.12g native %.12g' % (n, i, a, b))
        try:
            tie = bad and not all(cfloat(c, env, case.ntol) for c in w.path)     # so close to a border that rounding may change the branch
        except (ZeroDivisionError, OverflowError, ValueError):
            tie = False
        if tie:
            pass
        elif bad:
            res['mismatch'] = res.get('mismatch', 0) + 1
            res['notes'].append('engine and native differ: ' + '; '.join(bad[:4]) + (' at %s' % vals if os.environ.get('VP_DEBUG') else ''))
        else:
            res['validated'] += 1

    def follows(w, env, extra=(), strict=True):
        """do these values satisfy the path condition (and stay clear of its borders) in floating point"""
        try:
            return all(cfloat(c, env, 1e-9 if strict else 0) for c in list(w.path) + list(extra))
        except (ZeroDivisionError, OverflowError, ValueError):
            return False

    spent = [0.0, 0.0, 0.0]

    def search(w, g, m, tries=400):
        t1 = time.time()
        try:
            return search_(w, g, m, tries if spent[0] < 60 else 20)
        finally:
            spent[0] += time.time() - t1

    lim = 85 if case.prog.name.endswith('f') else 700

    def fits(g, env):
        """the exponentials of the goal lie inside the range of the type: where they do not, the outcome is a matter of rounding"""
        if g is None or g[0] not in ('eq', 'le', 'lt') or not T.HASUF[0]:
            return True
        try:
            for x in g[2:4]:
                for i in T.atoms_of(T.poly(x)) if isinstance(x, Node) else ():
                    a = T._atoms[i]
                    if a.op == 'uf' and (a.a in ('exp', 'sinh', 'cosh') and abs(fval(a.b[0], env)) > lim or a.a in ('exp2', 'pow') and abs(math.log(abs(fval(a, env)) or 1e-300)) > lim):
                        return False
        except (ZeroDivisionError, OverflowError, ValueError):
            return False
        return True

    def search_(w, g, m, tries):
        """concrete inputs on this path (refuting goal g), where uninterpreted functions have their real values"""
        rnd = random.Random(SEED)
        names = [n for n, v in T.VARS.items()]
        base = dict(m or {})
        used = set()
        for c in list(w.path) + list(g[6] if g else ()):
            used |= {T._atoms[i].a for i in solve.cat(c)[2] if T._atoms[i].op == 'var'}
        for k in range(tries):
            keep = {n: x for n, x in base.items() if rnd.random() < (0.9, 0.5, 0)[k % 3]}
            if k % 4 == 3:      # single variables at another scale
                for n in used:
                    v = T.VARS[n]
                    if v.info[0] is not None and v.info[1] is not None and v.info[2] != 'I' and rnd.random() < 0.5:
                        lo, hi = v.info[0], v.info[1]
                        f = Q(int(10 ** rnd.uniform(0, 6)), 10**6)
                        keep[n] = lo + (hi - lo) * f if rnd.random() < 0.5 or lo >= 0 else hi * f * rnd.choice((1, -1))
            env = full_env(w, keep, SEED * 7919 + k)
            if follows(w, env, g[6] if g else ()):
                if g is None or gfloat(g, env, case.ntol) and fits(g, env):
                    return env
        return None

    def record(w, g, msg, isfault, m=None, ng=None):
        t1, nv = time.time(), len(res['violations'])
        try:
            record_(w, g, msg, isfault, m, ng, spent[2] > 90)
        finally:
            if len(res['violations']) == nv:
                spent[2] += time.time() - t1

    def record_(w, g, msg, isfault, m, ng, brief):
        label = g[1] if g is not None else w.fault[0]
        key = (case.name, label.split('#')[0])
        if key in seenv and len(res['violations']) >= 3:
            return
        if len(res['violations']) >= 6:
            return
        seenv.add(key)
        # a concrete counterexample of the whole path
        models = []
        if brief:           # much time has gone into counterexamples which the real code does not confirm
            models = [dict(m)] if m else []
        elif ng is not None and ng is not True:
            fm = path_model(w, ng, g[6])
            if fm is not None:
                fm = dict(fm)
                fm.update({k: v for k, v in (m or {}).items() if k not in fm})
                models.append(fm)
            # a clearer counterexample
            if g is not None and g[0] in ('eq', 'le', 'lt') and not isinstance(g[2], Special) and not isinstance(g[3], Special):
                d = T.sub(T.lift(g[2]), T.lift(g[3]))
                for mag in (Q(1), Q(1, 10), Q(1, 1000), Q(1, 10**6)):
                    alts = [('R', '>', T.sub(d, mag))]
                    if g[0] == 'eq':
                        alts.append(('R', '<', T.add(d, mag)))
                    r2, m2 = solve.check(list(w.path) + list(g[6]) + [('OR', tuple(alts))], want_model=True, timeout=10000)
                    if r2 == 'sat':
                        models.insert(0, m2)
                        break
        else:
            fm = margin(w)
            if fm is not None:
                models.append(fm)
            fm = path_model(w)
            if fm is not None:
                models.append(fm)
        envs = [full_env(w, mm, SEED + sd) for mm in models or [{}] for sd in range(2)]
        if T.HASUF[0] and not brief:
            e = search(w, g, models[0] if models else None)
            if e is not None:
                envs.append(e)
        if True:
            for env in envs:
                try:
                    vals = inputs_of(w, env)
                except (ZeroDivisionError, OverflowError, ValueError):
                    continue
                if not isfault and not fits(g, env):
                    continue
                case.env = env
                v = replay(case, vals, isfault, w.fault)
                if v:
                    res['violations'].append(dict(case=case.name, label=label, detail=msg or v, native=v, path=[cshow(c) for c in w.path[:12]],
                                                  inputs={'%d:%s[%d]' % k: x for k, x in vals.items()}, cfg={k: (float(x) if not isinstance(x, str) else x) for k, x in case.cfg.items()}))
                    if not any(matches(k, res['violations'][-1]) for k in KF):
                        raise Stop()
                    return
        d = msg
        if d is None:
            try:
                d = '%s: %s vs %s' % (g[1], T.show(g[2], 300), T.show(g[3], 300))
            except Exception:
                d = g[1]
        res.setdefault('unconfirmed', []).append(dict(case=case.name, label=label, detail=d, path=[cshow(c) for c in w.path[:12]]))

    def on_abandon(w, msg):
        """a path the engine cannot follow: what the real code does at one of its inputs; only a violation is an answer"""
        m = margin(w) or path_model(w)
        if m is None or case.nranks > 1 or not case.validate:
            return
        env = full_env(w, m, SEED)
        if not follows(w, env):
            return
        try:
            vals = inputs_of(w, env)
        except (ZeroDivisionError, OverflowError, ValueError):
            return
        case.env = env
        v = replay(case, vals, False, None)
        if v:
            res['violations'].append(dict(case=case.name, label='path not followed', detail='%s; %s' % (v, msg), native=v, path=[cshow(c) for c in w.path[:12]],
                                          inputs={'%d:%s[%d]' % k: x for k, x in vals.items()}, cfg={k: (float(x) if not isinstance(x, str) else x) for k, x in case.cfg.items()}))
            if not any(matches(k, res['violations'][-1]) for k in KF):
                raise Stop()
    eng.on_abandon = on_abandon

    try:
        eng.explore(w0, on_path)
    except Stop:
        res['stopped'] = True
    except Unsupported as e:
        res['error'] = '%s: %s' % (case.name, e)
        if os.environ.get('VP_DEBUG'):
            traceback.print_exc()
    except Exception as e:
        res['error'] = '%s: %s: %s' % (case.name, type(e).__name__, e)
        if os.environ.get('VP_DEBUG'):
            traceback.print_exc()
    if eng.partial and not res.get('error'):
        res['error'] = '%s: %s' % (case.name, eng.partial)
    res['stat'] = eng.stat
    res['funcs'] = sorted(eng.funcs)
    res['pcs'] = (case.prog.img.path, sorted(eng.blocks))
    res['ext'] = sorted(eng.extused)
    res['assumed'] = sorted(eng.assumed)
    res['solve'] = dict(solve.STATS)
    res['wall'] = time.time() - t0
    return res


def cshow(c):
    if c is True or c is False:
        return str(c)
    if c[0] == 'R':
        return '%s %s 0' % (T.show(c[2], 120), c[1])
    if c[0] in ('OR', 'AND'):
        return '(' + (' %s ' % c[0].lower()).join(cshow(x) for x in c[1]) + ')'
    return str(c)[:120]


def cfloat(c, env, eps=0):
    if c is True or c is False:
        return c
    if c[0] in ('OR', 'AND'):
        return (any if c[0] == 'OR' else all)(cfloat(x, env, eps) for x in c[1])
    if c[0] != 'R':
        return True
    v = fval(c[2], env)
    return {'<': v < -eps, '<=': v <= -eps, '>': v > eps, '>=': v >= eps, '==': abs(v) <= 1e-9, '!=': abs(v) > eps}[c[1]]


def gfloat(g, env, ntol):
    """does the goal fail at these values"""
    if g[0] == 'true':
        return not g[2]
    if g[0] == 'cond':
        return not cfloat(g[2], env)
    try:
        a, b = fval(g[2], env), fval(g[3], env)
    except (ZeroDivisionError, OverflowError, ValueError):
        return False
    t = 10 * ntol * max(abs(a), abs(b))
    if g[0] == 'eq':
        return abs(a - b) > max(t, 4 * float(g[4]) if not isinstance(g[4], Node) else 0)
    return a > b + t


def replay(case, vals, isfault, fault):
    """None when the real code satisfies the specification on these inputs, else what is wrong"""
    vals = dict(vals)
    outs, st = run_native(case, vals)
    if st['rc'] == 77 and 'missing ' in st['txt']:
        return None
    if isfault:
        kind = fault[0]
        if kind in ('memory', 'uninit'):
            # decided by the engine's memory model; natively by valgrind
            return run_valgrind(case, vals) or replay(case, vals, False, None)
        if kind == 'deadlock':
            return 'native run does not finish (%s)' % st['rc'] if st['rc'] == 'timeout' else None
        if st['rc'] != 0 or not st['done']:
            return 'native run ends with status %s: %s' % (st['rc'], st['txt'][-300:])
        bad = [n for o in outs for n, v in o.items() if any(x != x or abs(x) == math.inf for x in v)]
        if bad and kind in ('nan', 'divzero'):
            return 'native run returns non-finite values in %s' % bad
        return None
    if st['rc'] != 0 or not st['done']:
        return 'native run ends with status %s: %s' % (st['rc'], st['txt'][-300:])
    ctx = Ctx(case, outs, vals, native=True)
    try:
        case.spec(ctx)
    except (KeyError, IndexError) as e:
        return 'native output missing: %s' % e
    except NoValue:
        return None
    bad = [x for x in (goal_float(g, case.ntol) for g in ctx.goals) if x]
    if bad:
        return '; '.join(bad[:3])
    return None


def run_valgrind(case, vals):
    import tempfile
    d = tempfile.mkdtemp(prefix='vg.', dir=build.scratch())
    vf = os.path.join(d, 'values')
    with open(vf, 'w') as f:
        for k, v in case.cfg.items():
            if not isinstance(v, str):
                f.write('-2 %s 0 %.17g\n' % (k, float(v)))
        for (r, n, i), v in vals.items():
            f.write('%d %s %d %.17g\n' % (r, n, i, v))
    env = dict(os.environ, VP_VALUES=vf, VP_OUT=os.path.join(d, 'out'), OMP_NUM_THREADS='1', OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1')
    log = os.path.join(d, 'vg.%p')
    cmd = ['valgrind', '-q', '--error-exitcode=0', '--log-file=' + log, case.prog.exe(bool(case.random))]
    if case.nranks > 1:
        cmd = ['mpirun', '--oversubscribe', '-n', str(case.nranks)] + cmd
    try:
        subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=d, timeout=300, preexec_fn=with_parent)
    except subprocess.TimeoutExpired:
        pass
    txt = ''
    for f in sorted(os.listdir(d)):
        if f.startswith('vg.'):
            txt += open(os.path.join(d, f), errors='replace').read()
    shutil.rmtree(d, ignore_errors=True)
    import re
    L = [re.sub(r'^==\d+== ?', '', l) for l in txt.splitlines()]
    hits = [i for i, l in enumerate(L) if re.search(r'Invalid (read|write)|uninitialised|Process terminating', l)]
    for i in hits:
        blk = ' | '.join(x.strip() for x in L[i:i + 5])
        if 'libmpi' in blk or 'libopen' in blk or 'libpmix' in blk:
            continue
        return 'valgrind on the native run: ' + blk[:400]
    return None


_cases = None
KF = []
# seconds for all the cases of a check; a quick check has 900
DEADLINE = float(os.environ.get('VP_DEADLINE') or (780 if TIER == 'quick' else 6 * 3600))


def _worker(i):
    try:
        return run_case(_cases[i])
    except Exception as e:
        return dict(blank(_cases[i].name, '%s: %s' % (type(e).__name__, e)), tb=traceback.format_exc())


def blank(name, error):
    return dict(case=name, error=error, paths=0, goals=0, nf=0, z3=0, violations=[], unknown=[], validated=0,
                notes=[], faults=0, samples=[], stat={}, funcs=[], ext=[], assumed=[], solve=dict(solve.STATS), wall=0, bounds='')


def known_findings(pid):
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('property') == pid and k.get('status') == 'open']


def main(pid, cases, assumptions=(), outside='', procs=8):
    """run the cases of a property; prints the outcome, writes evidence, exits"""
    global _cases
    t0 = main.t0 if hasattr(main, 't0') else time.time()
    only = os.environ.get('VP_ONLY')
    if only:
        cases = [c for c in cases if only in c.name]
    _cases = cases
    KF[:] = known_findings(pid)
    for pr in {id(c.prog): c.prog for c in cases}.values():
        pr.img
    for c in cases:
        c.prog.exe(bool(c.random))
    tb = time.time()
    order = sorted(range(len(cases)), key=lambda i: -getattr(cases[i], 'weight', 0))
    if procs == 1 or len(cases) == 1 or os.environ.get('VP_SERIAL'):
        rs = [_worker(i) for i in order]
    else:
        with mp.get_context('fork').Pool(min(procs, len(cases)), maxtasksperchild=1) as pool:
            # after the first violation the other cases get little time; cases left at the deadline are reported as not decided
            it = pool.imap_unordered(_worker, order, chunksize=1)
            rs, end = [], t0 + DEADLINE
            while len(rs) < len(order):
                try:
                    r = it.next(timeout=max(0.1, end - time.time()))
                except mp.TimeoutError:
                    break
                rs.append(r)
                if any(not any(matches(k, v) for k in KF) for v in r['violations']):
                    end = min(end, time.time() + 15)
            pool.terminate()
            names = {r['case'] for r in rs}
            new = any(not any(matches(k, v) for k in KF) for r in rs for v in r['violations'])
            for i in order:
                if cases[i].name not in names:
                    rs.append(blank(cases[i].name, '%s: %s' % (cases[i].name, 'not explored, a violation was found before' if new else 'not decided within the time limit')))
    finish(pid, rs, t0, assumptions, outside, tb - t0)


def inlined(rs):
    """functions of the C++ headers executed as inlined code"""
    pcs = {}
    for r in rs:
        if r.get('pcs'):
            pcs.setdefault(r['pcs'][0], set()).update(r['pcs'][1])
    names = set()
    for path, v in pcs.items():
        try:
            out = subprocess.run(['addr2line', '-f', '-i', '-C', '-e', path], input='\n'.join('%x' % x for x in sorted(v)), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                 universal_newlines=True, timeout=60).stdout.split('\n')
        except (OSError, subprocess.SubprocessError):
            continue
        names |= {a for a, b in zip(out[0::2], out[1::2]) if '/multi_physics/QED/src/' in b}
    return names


def undecided_share(r):
    if r.get('error') or r.get('mismatch') or r['paths'] == 0:
        return 1.0
    return min(1.0, (len(r['unknown']) + len(r.get('unconfirmed', []))) / max(1, r['goals']))


def finish(pid, rs, t0, assumptions, outside, tbuild):
    viol, errs, unk, unc, mism = [], [], [], [], []
    kf = known_findings(pid)
    for r in rs:
        viol += r['violations']
        if r.get('error'):
            errs.append(r['error'] + (('\n' + r['tb']) if r.get('tb') and os.environ.get('VP_DEBUG') else ''))
        unk += r['unknown']
        unc += r.get('unconfirmed', [])
        if r.get('mismatch'):
            mism.append('%s: %s' % (r['case'], '; '.join(r['notes'])[:600]))
        if not r.get('error') and not r['violations'] and (r['paths'] == 0 or (r['goals'] == 0 and not r['faults'])):
            errs.append('%s: vacuous (no path or no goal)' % r['case'])
    new, seen = [], {}
    for v in viol:
        hit = None
        for k in kf:
            if matches(k, v):
                hit = k
                break
        if hit is not None:
            seen[id(hit)] = hit
        else:
            new.append(v)
    # a listed finding also explains an unconfirmed refutation of the same goal
    unc = [u for u in unc if not any(k['case'] in u['case'] and k['label'] in u['label'] for k in kf)]
    for k in kf:
        if id(k) in seen:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    funcs = sorted({f for r in rs for f in r['funcs'] if not f.startswith('vp_') and not f.startswith('drv_')} | (inlined(rs) if pid[0] == 'Q' else set()))
    S = {k: sum(r['solve'].get(k, 0) for r in rs) for k in ('queries', 'time', 'sat', 'unsat', 'unknown', 'cached')}
    samples = [s for r in rs for s in r['samples']][:6]
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level='model_checking',
              coverage=dict(states=sum(r['paths'] for r in rs), transitions=sum(r['stat'].get('instrs', 0) for r in rs),
                            traces_validated_against_impl=sum(r['validated'] for r in rs), samples=samples,
                            explanation='states = feasible symbolic paths completed; transitions = machine instructions of the real code executed symbolically; '
                                        'each path discharges its goals for every value of the symbolic inputs that follows it',
                            functions_encoded=funcs, cases=[dict(case=r['case'], paths=r['paths'], goals=r['goals'], by_normal_form=r['nf'], by_z3=r['z3'], validated=r['validated'],
                                                                 wall_s=round(r['wall'], 2), bounds=r.get('bounds', '')) for r in rs],
                            goals=sum(r['goals'] for r in rs), goals_by_polynomial_normal_form=sum(r['nf'] for r in rs), goals_by_z3=sum(r['z3'] for r in rs),
                            forks=sum(r['stat'].get('forks', 0) for r in rs), solver_queries=S['queries'], solver_time_s=round(S['time'], 3),
                            solver_results=dict(sat=S['sat'], unsat=S['unsat'], unknown=S['unknown'], cached=S['cached']),
                            externals_modelled=sorted({e for r in rs for e in r['ext']}), build_s=round(tbuild, 2), outside=outside, undecided=[str(e)[:400] for e in errs + unk + mism] + [json.dumps(u, default=str)[:400] for u in unc]),
              assumptions=list(assumptions) + sorted({a for r in rs for a in r['assumed']}), wall_s=round(time.time() - t0, 3), violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d cases, %d paths, %d goals (%d normal form, %d z3), %d native validations, %d instrs, %d queries %.1fs solver, %.1fs build, %.1fs wall' % (
        pid, len(rs), ev['coverage']['states'], ev['coverage']['goals'], ev['coverage']['goals_by_polynomial_normal_form'], ev['coverage']['goals_by_z3'],
        ev['coverage']['traces_validated_against_impl'], ev['coverage']['transitions'], S['queries'], S['time'], tbuild, ev['wall_s']))
    if os.environ.get('VP_VERBOSE'):
        for r in sorted(rs, key=lambda r: -r['wall'])[:60]:
            print('   %-50s paths %d goals %d nf %d z3 %d val %d instr %d q %d (%.1fs) wall %.1f %s' % (
                r['case'], r['paths'], r['goals'], r['nf'], r['z3'], r['validated'], r['stat'].get('instrs', 0), r['solve']['queries'], r['solve']['time'], r['wall'], '; '.join(r['notes'])[:300]))
    if new:
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, pid + '.json')
        json.dump(new, open(p, 'w'), indent=1, default=str)
        for v in new[:5]:
            print('counterexample in %s: %s' % (v['case'], v['detail']))
            print('   native replay: %s' % v['native'])
        print('VIOLATION property=%s replay=%s' % (pid, p))
        sys.exit(1)
    if errs or unk or unc or mism:
        for e in errs[:10]:
            print('ERROR', e)
        for e in unk[:10]:
            print('UNDECIDED', e)
        for e in unc[:10]:
            print('UNCONFIRMED', json.dumps(e, default=str)[:1500])
        for e in mism[:10]:
            print('MISMATCH', e)
        # what could not be decided is reported as not covered (evidence: undecided); no answer at all when that is most of the check
        share = [undecided_share(r) for r in rs]
        if os.environ.get('VP_STRICT') or sum(share) * 2 > len(rs):
            sys.exit(2)
        print('OK property=%s on the %d of %d cases decided in full (%.0f%% of all goals weighted by case)' % (
            pid, sum(1 for x in share if x == 0), len(rs), 100 * (1 - sum(share) / max(1, len(rs)))))
        sys.exit(0)
    print('OK property=%s' % pid)
    sys.exit(0)


main.t0 = time.time()
