"""Independent finite-difference reference: exact rational weights from
Lagrange interpolation on the documented stencils."""
from fractions import Fraction as F
from functools import lru_cache
from math import comb


def _polymul(a, b):
    r = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return r


@lru_cache(None)
def weights(offsets, m):
    """Weights w_k with sum w_k f(o_k) = f^(m)(0) for polynomials of degree < len(offsets)."""
    w = []
    for k, ok in enumerate(offsets):
        p = [F(1)]
        for j, oj in enumerate(offsets):
            if j != k:
                p = _polymul(p, [F(-oj, ok - oj), F(1, ok - oj)])
        fact = 1
        for i in range(2, m + 1):
            fact *= i
        w.append(p[m] * fact if m < len(p) else F(0))
    return {o: x for o, x in zip(offsets, w) if x != 0}


def op1d(kind, order):
    """1-D stencil {offset: weight} (unit spacing) of each operator family."""
    h = order // 2
    if kind == "dD":
        return weights(tuple(range(-h, h + 1)), 1)
    if kind == "dDD":
        return weights(tuple(range(-h, h + 1)), 2)
    if kind == "dupD":
        return weights(tuple(range(-h + 1, h + 2)), 1)
    if kind == "ddnD":
        return weights(tuple(range(-h - 1, h)), 1)
    if kind == "dfullupD":
        return weights(tuple(range(0, order + 1)), 1)
    if kind == "dfulldnD":
        return weights(tuple(range(-order, 1)), 1)
    if kind == "dKOD":
        # Kreiss-Oliger: (-1)^(r+1)/2^(2r) * (undivided 2r-th difference), r = order/2+1
        r = h + 1
        return {o: F((-1) ** (r + 1) * (-1) ** (o + r) * comb(2 * r, o + r), 2 ** (2 * r)) for o in range(-r, r + 1)}
    raise ValueError(kind)


def stencil3d(op, order):
    """op like dD1, dDD02, dKOD2 -> ({(o0,o1,o2): weight}, directions to divide by dx)"""
    kind = op.rstrip("0123456789")
    digs = [int(c) for c in op[len(kind):]]
    out = {}
    if kind == "dDD" and digs[0] != digs[1]:
        w = op1d("dD", order)
        for a, wa in w.items():
            for b, wb in w.items():
                o = [0, 0, 0]
                o[digs[0]], o[digs[1]] = a, b
                out[tuple(o)] = wa * wb
        return out, digs
    for a, wa in op1d(kind, order).items():
        o = [0, 0, 0]
        o[digs[-1]] = a
        out[tuple(o)] = wa
    return out, digs
