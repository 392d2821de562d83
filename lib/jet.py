"""Truncated multivariate Taylor arithmetic in mpmath (independent of SymPy).

A Jet holds the Taylor coefficients of a function of n variables up to total
degree N around a point; d(multi-index) gives the partial derivative there."""
import itertools
import math
from functools import lru_cache

from mpmath import mp, mpf


@lru_cache(None)
def monos(n, N):
    out = [m for m in itertools.product(range(N + 1), repeat=n) if sum(m) <= N]
    out.sort(key=lambda m: (sum(m), m))
    return out


@lru_cache(None)
def pairs(n, N):
    ms = monos(n, N)
    pos = {m: i for i, m in enumerate(ms)}
    out = []
    for i, a in enumerate(ms):
        for j, b in enumerate(ms):
            s = tuple(x + y for x, y in zip(a, b))
            if s in pos:
                out.append((i, j, pos[s]))
    return out


@lru_cache(None)
def index(n, N):
    return {m: i for i, m in enumerate(monos(n, N))}


class Jet:
    __slots__ = ("n", "N", "c")

    def __init__(self, n, N, c):
        self.n, self.N, self.c = n, N, c

    @staticmethod
    def const(n, N, v):
        c = [mpf(0)] * len(monos(n, N))
        c[0] = mp.mpmathify(v)
        return Jet(n, N, c)

    @staticmethod
    def var(n, N, i, v):
        j = Jet.const(n, N, v)
        if N:
            e = tuple(1 if k == i else 0 for k in range(n))
            j.c[index(n, N)[e]] = mpf(1)
        return j

    def _co(self, o):
        return o if isinstance(o, Jet) else Jet.const(self.n, self.N, o)

    def __add__(self, o):
        o = self._co(o)
        return Jet(self.n, self.N, [a + b for a, b in zip(self.c, o.c)])
    __radd__ = __add__

    def __neg__(self):
        return Jet(self.n, self.N, [-a for a in self.c])

    def __sub__(self, o):
        return self + (-self._co(o))

    def __rsub__(self, o):
        return self._co(o) + (-self)

    def __mul__(self, o):
        if not isinstance(o, Jet):
            o = mp.mpmathify(o)
            return Jet(self.n, self.N, [a * o for a in self.c])
        r = [mpf(0)] * len(self.c)
        a, b = self.c, o.c
        for i, j, k in pairs(self.n, self.N):
            if a[i] and b[j]:
                r[k] += a[i] * b[j]
        return Jet(self.n, self.N, r)
    __rmul__ = __mul__

    def apply(self, coeffs):
        """coeffs: Taylor coefficients f^(k)(c0)/k!, k=0..N."""
        h = Jet(self.n, self.N, [mpf(0)] + self.c[1:])
        r = Jet.const(self.n, self.N, coeffs[self.N])
        for k in range(self.N - 1, -1, -1):
            r = r * h + coeffs[k]
        return r

    def pw(self, p):
        x = self.c[0]
        p = mp.mpmathify(p)
        co, f = [], mpf(1)
        for k in range(self.N + 1):
            co.append(f * (x ** (p - k)) if f else mpf(0))
            f = f * (p - k) / (k + 1)
        return self.apply(co)

    def __truediv__(self, o):
        return self * (o.pw(-1) if isinstance(o, Jet) else 1 / mp.mpmathify(o))

    def __rtruediv__(self, o):
        return self.pw(-1) * o

    def __pow__(self, p):
        if isinstance(p, int) and p >= 0:
            r = Jet.const(self.n, self.N, 1)
            for _ in range(p):
                r = r * self
            return r
        return self.pw(p)

    def sqrt(self):
        return self.pw(mpf(1) / 2)

    def exp(self):
        e = mp.exp(self.c[0])
        return self.apply([e / math.factorial(k) for k in range(self.N + 1)])

    def sin(self):
        s, c = mp.sin(self.c[0]), mp.cos(self.c[0])
        cyc = [s, c, -s, -c]
        return self.apply([cyc[k % 4] / math.factorial(k) for k in range(self.N + 1)])

    def cos(self):
        s, c = mp.sin(self.c[0]), mp.cos(self.c[0])
        cyc = [c, -s, -c, s]
        return self.apply([cyc[k % 4] / math.factorial(k) for k in range(self.N + 1)])

    def sinh(self):
        s, c = mp.sinh(self.c[0]), mp.cosh(self.c[0])
        return self.apply([(s if k % 2 == 0 else c) / math.factorial(k) for k in range(self.N + 1)])

    def diff(self, i):
        """Partial derivative as a jet of degree N-1."""
        ms, idx = monos(self.n, self.N - 1), index(self.n, self.N)
        c = []
        for m in ms:
            e = tuple(x + (1 if k == i else 0) for k, x in enumerate(m))
            c.append(self.c[idx[e]] * e[i])
        return Jet(self.n, self.N - 1, c)

    def trunc(self, N):
        idx = index(self.n, self.N)
        return Jet(self.n, N, [self.c[idx[m]] for m in monos(self.n, N)])

    def d(self, *dirs):
        m = [0] * self.n
        for k in dirs:
            m[k] += 1
        f = 1
        for x in m:
            f *= math.factorial(x)
        return self.c[index(self.n, self.N)[tuple(m)]] * f

    @property
    def v(self):
        return self.c[0]


def inv3(m):
    """Inverse and determinant of a 3x3 matrix of jets or numbers."""
    cof = [[m[(j + 1) % 3][(i + 1) % 3] * m[(j + 2) % 3][(i + 2) % 3] - m[(j + 1) % 3][(i + 2) % 3] * m[(j + 2) % 3][(i + 1) % 3]
            for j in range(3)] for i in range(3)]
    det = m[0][0] * cof[0][0] + m[0][1] * cof[1][0] + m[0][2] * cof[2][0]
    return [[cof[i][j] / det for j in range(3)] for i in range(3)], det
