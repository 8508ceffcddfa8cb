"""Q05: containers of the QED library behave as values: every history of operations, views, arrays; no block lost or freed twice."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction as Q
from symx import terms as T, qed
from symx.qed import k
from symx.harness import Case, main, TIER

P = qed.progs('q05', 'q05.cpp', ('si', 'sif'))
OPS = ['copy assignment', 'move assignment', 'self assignment', 'resize', 'element writes', 'from std::vector', 'copy, then the source changes', 'copy of a copy', 'list, move, copy']


def same(ctx, name, got, want):
    ctx.true('size of ' + name, len(got) == len(want))
    if len(got) == len(want):
        for i, (x, y) in enumerate(zip(got, want)):
            ctx.eq('%s[%d]' % (name, i), x, y)


def history(ctx):
    c = ctx.cfg
    one = lambda j: k(ctx, j)
    st = [[ctx.sym('a', i) for i in range(c['n0'])], [ctx.sym('b', i) for i in range(c['n1'])]]
    ops = ctx.iout('ops')
    ctx.true('operations', len(ops) == c['len'])
    for s, op in enumerate(ops):
        d, o, op = op & 1, 1 - (op & 1), op >> 1
        v = ctx.sym('v', s)
        D, O = st[d], st[o]
        if op == 0:
            st[d] = list(O)
        elif op == 1:
            st[d], st[o] = O, []
        elif op == 3:
            if D:
                m = c['rs'] + s
                st[d] = D[:m] + [v] * (m - len(D))
        elif op == 4:
            if D:
                D[len(D) // 2] = v
                D[-1] = v + one(1)
                D[0] = v + one(2)
        elif op == 5:
            st[d] = [v, v + one(1), v + one(2), v + one(3)]
        elif op == 6:
            st[d] = list(O)
            if O:
                O[0] = v
        elif op == 8:
            st[d] = [v, v + one(5)]
        elif op == 7:
            st[o] = list(D)
    for j, n in enumerate('AB'):
        ctx.true('reported size of ' + n, ctx.iout('s' + n) == [len(st[j])])
        same(ctx, n, ctx.out(n) if ctx.has(n) else [], st[j])
        if st[j]:
            same(ctx, 'ends of ' + n, ctx.out('e' + n), [st[j][0], st[j][-1]] * 3 + [st[j][-1]])
    ctx.true('every block is returned once', ctx.iout('live') == [0])


def view(ctx):
    n = ctx.cfg['n0']
    a = [ctx.sym('a', i) for i in range(n)]
    z = a[:-1] + [ctx.sym('v', 0)]
    z[0] = k(ctx, 99)
    z[1] = k(ctx, 97)
    a[-1], a[0] = ctx.sym('v', 0), ctx.sym('v', 1)
    ctx.true('sizes', ctx.iout('moved') == [0] and ctx.iout('sw') == [n])
    same(ctx, 'assigned over a view', ctx.out('y'), z)
    same(ctx, 'A', ctx.out('A'), a)
    same(ctx, 'ends of A', ctx.out('eA'), [a[0], a[-1]] * 3 + [a[-1]])
    ctx.true('every block is returned once', ctx.iout('live') == [0])


def arrays(ctx):
    a = [ctx.sym('a', i) for i in range(4)]
    ctx.true('sizes', ctx.iout('sA') == [4, 4, 4])
    same(ctx, 'array', ctx.out('A'), a)
    same(ctx, 'iterated array', ctx.out('C'), a)
    same(ctx, 'copy', ctx.out('B'), a[:2] + [ctx.sym('v', 0)] + a[3:])
    same(ctx, 'assigned', ctx.out('D'), [x + k(ctx, 1) for x in a])
    same(ctx, 'written through begin', ctx.out('F'), [k(ctx, 5)])
    ctx.true('no memory is taken', ctx.iout('live') == [0])


cases = []
TH = TIER == 'thorough'
inp = dict(a=lambda i: (-100, 100), b=lambda i: (-100, 100), v=lambda i: (-100, 100))
for t, p in P.items():
    nm = 'single' if t.endswith('f') else 'double'
    L = (3 if nm == 'double' else 2) + TH
    # single precision without the list constructor: it packs two values into an integer register
    nf = 18 if nm == 'double' else 16
    for f in range(nf):
        # rs: the first resize shrinks or grows
        for rs in (2, 4) if TH or nm == 'double' else (2,):
            cases.append(Case('%s, %s of %s first, resize from %d' % (nm, OPS[f // 2], 'AB'[f & 1], rs), p, dict(mode=0, len=L, n0=3, n1=2, rs=rs),
                              dict(inp, op=lambda i, f=f, nf=nf: Q(f) if i == 0 else (0, nf - 1)), history, validate=6, bounds='every history of %d operations, all element values' % L))
    for n in (2, 3, 5):
        cases.append(Case('%s, views of %d elements' % (nm, n), p, dict(mode=1, n0=n), inp, view))
    cases.append(Case('%s, arrays' % nm, p, dict(mode=2), inp, arrays))
main('Q05', cases, outside='histories above 4 operations, vectors above 7 elements; use of a moved-from or non-owning vector for resize')
