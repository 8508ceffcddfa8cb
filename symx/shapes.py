"""B-spline shape factors used as the oracle of deposition and gathering."""
from fractions import Fraction as Q
from . import terms as T


def weights(order, d):
    """weights of the nodes start..start+order for a particle at distance d from the reference node;
    odd orders: reference = floor, even orders: reference = nint.  returns (first offset, [w])"""
    one = 1
    if order == 0:
        return 0, [d * 0 + 1]
    if order == 1:
        return 0, [1 - d, d]
    if order == 2:
        h = Q(1, 2) if d.__class__ in (T.Node, Q) else 0.5
        a = h - d
        b = h + d
        return -1, [h * a * a, (Q(3, 4) if h.__class__ is Q else 0.75) - d * d, h * b * b]
    if order == 3:
        s = Q(1, 6) if d.__class__ in (T.Node, Q) else 1. / 6
        o = 1 - d
        # cubic B-spline pieces written from the general definition
        w0 = s * o * o * o
        w1 = s * (4 - 6 * d * d + 3 * d * d * d)
        w2 = s * (4 - 6 * o * o + 3 * o * o * o)
        w3 = s * d * d * d
        return -1, [w0, w1, w2, w3]
    raise ValueError(order)


def spline(ctx, order, x):
    """iterate over the spline pieces x can lie in: yields {node: weight}"""
    if order % 2 == 0:
        for j in ctx.nints(x):
            st, w = weights(order, x - j)
            yield {j + st + i: v for i, v in enumerate(w)}
    else:
        for j in ctx.floors(x):
            st, w = weights(order, x - j)
            yield {j + st + i: v for i, v in enumerate(w)}
