import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import *
from symx.push import *


def spec(ctx):
    c = ctx.cfg
    v = c['variant']
    m, dt = ctx.sym('m'), ctx.sym('dt')
    tot = 0
    for i in range(1, c['np'] + 1):
        gi = ctx.sym('gi', i)
        unchanged(ctx, 'ex ey ez bx by bz ux uy uz gi'.split(), i)
        for a in AX:
            n, x, u = ctx.out(a)[i - 1], ctx.sym(a, i), ctx.sym('u' + a, i)
            if v == 15 or (v in (13, 14) and a == 'y'):
                ctx.eq('%s(%d) untouched' % (a, i), n, x)
            else:
                ctx.eq('%s(%d) advances by v dt' % (a, i), (n - x), u * gi * dt)
        tot = tot + (1 / gi - 1)
    if v == 15:
        ctx.eq('kinetic energy', ctx.out('ke')[0], tot * m * CL ** 2 * ctx.sym('ppid'))


ALL = 'x y z ux uy uz gi'.split()
cases = []
for v in (12, 13, 14):
    cases.append(mk(v, ALL + ['dt'], spec=spec))
    cases += [mk(v, ALL, np=n, at=a, spec=spec) for n, a in ((2, 1), (3, 2), (3, 3), (8, 5), (9, 9))]
cases += [mk(15, ['gi', 'm', 'ppid'], np=n, at=a, spec=spec) for n, a in ((1, 1), (3, 1), (3, 3), (9, 8))]
if __name__ == '__main__':
    main('C07', cases, assumptions=['floating point is read as exact real arithmetic', '1/gamma in [1/1000, 1]'], outside='more than 9 particles, rounding')
