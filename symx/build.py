"""Compile /repo's current sources and link them with a driver, for the engine and for native replay."""
import threading, os, subprocess, re, shutil, hashlib, tempfile, atexit
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MPIF = ['-I/usr/lib/x86_64-linux-gnu/openmpi/lib/../../fortran/gfortran-mod-15/openmpi',
        '-I/usr/lib/x86_64-linux-gnu/openmpi/lib']
SYMF = ['-O1', '-fno-pic', '-fcf-protection=none', '-fno-stack-protector', '-fno-tree-vectorize',
        '-fno-tree-slp-vectorize', '-ffunction-sections', '-fdata-sections', '-fno-asynchronous-unwind-tables',
        '-ffp-contract=off', '-fno-jump-tables', '-fno-tree-loop-distribute-patterns', '-fno-store-merging']
FF = ['-fallow-argument-mismatch', '-ffree-line-length-none', '-w', '-g1']


class BuildError(Exception):
    pass


_scratch = None
_lock = threading.Lock()


def scratch():
    global _scratch
    with _lock:
        return _scratch_()


def _scratch_():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vp.')
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
    return _scratch


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-4000:]))
    return r.stdout.decode(errors='replace')


_modre = re.compile(r'^\s*module\s+(\w+)\s*(!.*)?$', re.I | re.M)
_defre = re.compile(r'^[^!\'"\n]*?\b(?:subroutine|function)\s+(\w+)', re.I | re.M)
_usere = re.compile(r'^\s*use\s*(?:,\s*\w+\s*::)?\s*(\w+)', re.I | re.M)


def fortran_sources(exclude=('main.F90', 'init_external.F90', 'itt_fortran.F90', 'sde_fortran.F90')):
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        if 'multi_physics' in d:
            continue
        for f in sorted(fs):
            if f.endswith('.F90') and f not in exclude:
                out.append(os.path.join(d, f))
    return sorted(out)


def _usetree(files):
    """modules defined and used per file"""
    info = {}
    for f in files:
        s = open(f, errors='replace').read()
        defs = {m.group(1).lower() for m in _modre.finditer(s) if m.group(1).lower() != 'procedure'}
        uses = {m.group(1).lower() for m in _usere.finditer(s)}
        info[f] = (defs, uses)
    return info


class FBuild:
    """all Fortran objects of /repo for one set of defines/flags"""

    def __init__(self, defines=(), flags=(), drivers=(), openmp=False, tag='sym', opt=None, lazy=True):
        self.dir = os.path.join(scratch(), 'f_%s_%s' % (tag, hashlib.md5(repr((defines, flags, drivers, openmp)).encode()).hexdigest()[:8]))
        os.makedirs(self.dir, exist_ok=True)
        self.tag = tag
        base = list(SYMF if tag == 'sym' else (opt or ['-O1', '-g', '-fPIC']))
        self.flags = base + FF + list(flags) + ['-D' + d for d in defines] + MPIF + ['-I/usr/include', '-J' + self.dir, '-I' + self.dir]
        if openmp:
            self.flags.append('-fopenmp')
        srcs = fortran_sources()
        if not any(d.startswith('FFTW') for d in defines):
            srcs = [s for s in srcs if 'GPSTD_solver' not in s]
        info = _usetree(srcs + list(drivers))
        cache = None if lazy else os.environ.get('VP_CACHE')     # development only: reuse objects of identical sources
        if cache:
            hh = hashlib.md5(repr(self.flags).replace(self.dir, '').encode())
            for f in sorted(info):
                hh.update(f.encode() + open(f, 'rb').read())
            cd = os.path.join(cache, hh.hexdigest())
            if os.path.exists(os.path.join(cd, 'done')):
                self.flags = [x.replace(self.dir, cd) for x in self.flags]
                self.dir = cd
                self.obj = {f: os.path.join(cd, o) for f, o in (l.rstrip().split('\t') for l in open(os.path.join(cd, 'done')))}
                return
        owner = {}
        for f, (d, u) in info.items():
            for m in d:
                owner.setdefault(m, f)
        self.owner, self.info = owner, info
        self.deps = {f: {owner[u] for u in us if u in owner and owner[u] != f} for f, (d, us) in info.items()}
        self.obj = {}
        self.defs = None
        self.drivers = list(drivers)
        self.cache = cd if cache else None
        if not lazy:
            self.compile(list(info))
            if cache:
                shutil.copytree(self.dir, cd, dirs_exist_ok=True)
                with open(os.path.join(cd, 'done'), 'w') as g:
                    for f, o in self.obj.items():
                        g.write('%s\t%s\n' % (f, os.path.basename(o)))

    @property
    def objs(self):
        return list(self.obj.values())

    def closure(self, files):
        need = set()
        st = list(files)
        while st:
            f = st.pop()
            if f not in need:
                need.add(f)
                st += list(self.deps.get(f, ()))
        return need

    def compile(self, files):
        """compile files and the modules they use"""
        import concurrent.futures as cf
        pending = {f for f in self.closure(files) if f not in self.obj}
        if not pending:
            return

        def comp(f):
            o = os.path.join(self.dir, os.path.basename(f)[:-4] + '_' + hashlib.md5(f.encode()).hexdigest()[:4] + '.o')
            run(['gfortran'] + self.flags + ['-c', f, '-o', o])
            return o
        with ThreadPoolExecutor(8) as ex:
            futs = {}
            while pending or futs:
                for f in list(pending):
                    if all(d in self.obj for d in self.deps[f]):
                        pending.discard(f)
                        futs[ex.submit(comp, f)] = f
                if not futs:
                    raise BuildError('circular module dependencies: %s' % pending)
                for r in cf.wait(futs, return_when=cf.FIRST_COMPLETED)[0]:
                    f = futs.pop(r)
                    self.obj[f] = r.result()

    def where(self, sym):
        """source file that defines a symbol of the object code"""
        if self.defs is None:
            self.defs = {}
            for f in self.info:
                for m in _defre.finditer(open(f, errors='replace').read()):
                    self.defs.setdefault(m.group(1).lower(), f)
        m = re.match(r'__(\w+?)_MOD_\w+$', sym)
        if m:
            return self.owner.get(m.group(1))
        if sym.endswith('_'):
            return self.defs.get(sym[:-1])

    def prog(self, name, src, entry=None, more=(), **kw):
        """a program from a driver and exactly the repository sources it reaches"""
        from .harness import Prog
        srcs = [glue(s) for s in ([src] if isinstance(src, str) else src)]
        uses = set()
        for s in srcs:
            uses |= {m.group(1).lower() for m in _usere.finditer(open(s).read())}
        self.compile([self.owner[u] for u in uses if u in self.owner])
        objs = [self.driver(s) for s in srcs] + list(more)
        entry = entry or 'drv_%s_' % name
        while True:
            img = link_image(self.objs + objs, entry, name)
            need = set()
            for s in stubs_of(img):
                f = self.where(s)
                if f and f not in self.obj:
                    need.add(f)
            if not need:
                break
            self.compile(need)
        p = Prog(name, self.objs + objs, entry, **kw)
        p._path = img
        return p

    def driver(self, src):
        o = os.path.join(scratch(), os.path.basename(src).rsplit('.', 1)[0] + '_' + os.path.basename(self.dir)[-8:] + '_drv.o')
        run(['gfortran'] + [('-J' + scratch()) if x.startswith('-J') else x for x in self.flags] + ['-c', src, '-o', o])
        return o


def glue(n):
    return n if os.path.isabs(n) else os.path.join(VERIF, 'glue', n)


def c_obj(src):
    """object of a C file of glue/"""
    o = os.path.join(scratch(), os.path.basename(src).rsplit('.', 1)[0] + '_c.o')
    run(['gcc', '-O1', '-g', '-w', '-fno-pic', '-fcf-protection=none', '-fno-stack-protector', '-fno-tree-vectorize', '-c', glue(src), '-o', o])
    return o


def stubs_of(img):
    out = subprocess.run(['nm', img], stdout=subprocess.PIPE).stdout.decode()
    return [l.split()[-1][9:] for l in out.splitlines() if '__vpstub.' in l]


def undefined(objs):
    out = subprocess.run(['nm', '-A'] + list(objs), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode()
    und, defd = set(), set()
    for l in out.splitlines():
        p = l.split()
        if len(p) >= 2 and p[-2] in ('U', 'w', 'v'):
            und.add(p[-1])
        elif len(p) >= 3 and p[-2] in 'TtDdBbRrCVWu':
            if p[-2] not in 'tdbr':
                defd.add(p[-1])
    return und - defd


def link_image(objs, entry, name='img', keep=()):
    d = scratch()
    und = sorted(undefined(objs))
    asm = os.path.join(d, name + '_stubs.s')
    with open(asm, 'w') as f:
        for u in und:
            f.write('.section ".text.vpstub.%s","ax",@progbits\n.globl "%s"\n.type "%s",@function\n"%s":\n"__vpstub.%s":\n ud2\n .zero 14\n'
                    % (u, u, u, u, u))
        f.write('.section .note.GNU-stack,"",@progbits\n')
    so = os.path.join(d, name + '_stubs.o')
    run(['as', asm, '-o', so])
    out = os.path.join(d, name + '.elf')
    run(['ld', '-static', '-no-pie', '--gc-sections', '-e', entry, '-o', out, '--no-warn-rwx-segments', '-z', 'norelro', '--allow-multiple-definition']
        + ['-u' + k for k in keep] + list(objs) + [so])
    return out


QED = 'src/multi_physics/QED/src'


def cxxprog(name, src, defs=(), natdefs=(), std='c++14', inc=(), natinc=(), natsrc=(), libs=(), openmp=False):
    """a C++ program over the header-only QED library: one object for the engine, one for native runs.
    inc / defs are for the engine's object only, natinc / natdefs for the native one; natsrc: sources only the native program links"""
    from .harness import Prog
    d = scratch()
    base = ['g++', '-std=' + std, '-w', '-I' + os.path.join(VERIF, 'glue'), '-I' + os.path.join(REPO, QED)]
    o, n = os.path.join(d, name + '_e.o'), os.path.join(d, name + '_n.o')
    entry = 'drv_' + name
    omp = ['-fopenmp'] if openmp else []
    jobs = [base[:3] + ['-I' + (i if os.path.isabs(i) else os.path.join(VERIF, 'glue', i)) for i in inc] + base[3:] + SYMF + omp + ['-g1', '-DVP_ENTRY=' + entry, '-DVP_ENGINE']
            + ['-D' + x for x in defs] + ['-c', glue(src), '-o', o],
            base[:3] + ['-I' + (i if os.path.isabs(i) else os.path.join(VERIF, 'glue', i)) for i in natinc] + base[3:] + ['-O1', '-g', '-fno-pic', '-ffp-contract=off', '-DVP_ENTRY=' + entry]
            + ['-D' + x for x in natdefs] + omp + ['-c', glue(src), '-o', n]]
    no = [n]
    for s in natsrc:
        p = os.path.join(d, name + '_' + os.path.basename(s) + '.o')
        jobs.append(['g++', '-std=c++17', '-O1', '-w', '-fno-pic', '-c', glue(s), '-o', p])
        no.append(p)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    return Prog(name, [o], entry, libs=list(libs) + omp, cxx=True, natobjs=no)
