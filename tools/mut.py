#!/usr/bin/env python3
"""Development helper: mut.py SPEC.py CHECK: apply each mutation (file, old, new[, occurrence]) of SPEC's list M to a copy of /repo/src and run the check on it."""
import sys, os, shutil, subprocess, re
spec, chk = sys.argv[1:3]
ns = {}
exec(open(spec).read(), ns)
D = '/tmp/mutrepo'
shutil.rmtree(D, ignore_errors=True)
os.makedirs(D)
subprocess.check_call(['cp', '-a', '/repo/src', D + '/'])
Q = 'src/multi_physics/QED/src/'
for m in ns['M']:
    f, a, b = m[:3]
    p = f if '/' in f else Q + f
    s = open('/repo/' + p).read()
    n = s.count(a)
    if n == 0:
        print('NOT FOUND', m)
        continue
    i, k = -1, (m[3] if len(m) > 3 else 0)
    for _ in range(k + 1):
        i = s.index(a, i + 1)
    open(D + '/' + p, 'w').write(s[:i] + b + s[i + len(a):])
    r = subprocess.run(['python3-vt', 'checks/%s.py' % chk], cwd='/verif', env=dict(os.environ, VP_REPO=D), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    t = r.stdout.decode()
    w = re.search(r'([\d.]+)s wall', t)
    print(['MISSED ', 'caught ', 'rc2    '][r.returncode] if r.returncode in (0, 1, 2) else r.returncode, w and w.group(1), repr(a[:50]), '->', repr(b[:50]), ('' if r.returncode == 1 and 'VIOLATION' in t else t[-300:]), flush=True)
    shutil.copy('/repo/' + p, D + '/' + p)
shutil.rmtree(D)
