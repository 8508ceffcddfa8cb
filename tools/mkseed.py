"""Development helper: python3 mkseed.py spec.py ...   each spec defines
   id, prop, needs, breaks, edits=[(file, old, new[, occurrence])], demo=(name, text) and optionally sh (demo.sh text).
Writes /verif/seeded/<id>/ from /repo's HEAD."""
import sys, os, subprocess, json, shutil, tempfile, runpy
SH_F = '''#!/bin/bash
# builds %(f)s against the Fortran objects of /repo/_build and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
R=$(pwd)
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_plm_rsh_agent=false OMPI_MCA_hwloc_base_binding_policy=none OMP_NUM_THREADS=1
cd "$T" && ar rcs libp.a $(find "$R/_build/%(tree)s/src" -name '*.o' ! -name main.o) || exit 2
mpif90 -fallow-argument-mismatch -ffree-line-length-none -w -O0 -g -I"$R/_build/%(tree)s/Modules" "$D/%(f)s" libp.a %(libs)s -lgomp -o demo || exit 2
timeout 250 %(run)s ./demo
'''
SH_C = '''#!/bin/bash
# builds %(f)s against the QED headers of /repo and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
R=$(pwd)
cd "$T" && g++ -std=c++14 -O0 -w %(defs)s -I"$R/src/multi_physics/QED/src" "$D/%(f)s" -o demo || exit 2
timeout 250 ./demo
'''
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    d = os.path.join('/verif/seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='seed.')
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-f', '--detach', t + '/w', 'HEAD'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        for e in s['edits']:
            f = os.path.join(t, 'w', e[0])
            x = open(f).read()
            n = x.count(e[1])
            k = e[3] if len(e) > 3 else None
            if n == 0 or (n > 1 and k is None):
                sys.exit('%s: %d occurrences of %r in %s' % (spec, n, e[1], e[0]))
            i = -1
            for _ in range((k or 0) + 1):
                i = x.index(e[1], i + 1)
            open(f, 'w').write(x[:i] + e[2] + x[i + len(e[1]):])
        p = subprocess.check_output(['git', '-C', t + '/w', 'diff'])
        open(d + '/patch.diff', 'wb').write(p)
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', t + '/w'])
        shutil.rmtree(t)
    fn, txt = s['demo']
    open(os.path.join(d, fn), 'w').write(txt)
    cxx = fn.endswith('.cpp')
    open(d + '/demo.sh', 'w').write(s.get('sh') or (SH_C if cxx else SH_F) % dict(f=fn, defs=s.get('defs', ''), run=s.get('run', ''), tree=s.get('tree', 'prod'), libs='-lfftw3_mpi -lfftw3_omp -lfftw3' if s.get('tree') == 'spectral' else ''))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    print(s['id'], len(p))
