"""Exact vacuum spacetimes on 4-variable Taylor jets (t, xx0, xx1, xx2), their 3+1 split and Riemann tensor; independent of NRPy."""
import random

from mpmath import mp, mpf, matrix

from jet import Jet, inv3

R, R4 = range(3), range(4)


def boost_matrix(v):
    v2 = sum(x * x for x in v)
    g = 1 / mp.sqrt(1 - v2)
    L = [[mpf(0)] * 4 for _ in R4]
    L[0][0] = g
    for i in R:
        L[0][i + 1] = L[i + 1][0] = -g * v[i]
        for j in R:
            L[i + 1][j + 1] = (1 if i == j else 0) + (((g - 1) * v[i] * v[j] / v2) if v2 else 0)
    return L


def rotation(rng):
    q = [rng.gauss(0, 1) for _ in R4]
    n = mp.sqrt(sum(mpf(x) ** 2 for x in q))
    w, x, y, z = [mpf(k) / n for k in q]
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
            [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
            [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]]


def kerr_schild(X, M, a):
    """H and k_mu of Kerr in Kerr-Schild form; X = jets (t,x,y,z)."""
    t, x, y, z = X
    b = x * x + y * y + z * z - a * a
    r2 = (b + (b * b + z * z * (4 * a * a)).sqrt()) * (mpf(1) / 2)
    r = r2.sqrt()
    H = r * r * r * (2 * M) / (r2 * r2 + z * z * (a * a))
    d = r2 + a * a
    k = [Jet.const(4, t.N, 1), (r * x + y * a) / d, (r * y - x * a) / d, z / r]
    return H, k


def pp_wave(X, co):
    t, x, y, z = X
    u = t - z
    f = [(u * co[2 * i]).sin() * co[2 * i + 1] + co[8 + i] for i in range(4)]
    H = f[0] * (x * x - y * y) + f[1] * (x * y) * 2 + f[2] * (x * x * x - x * y * y * 3) + f[3] * (y * y * y - x * x * y * 3)
    one = Jet.const(4, t.N, 1)
    return H, [one, one * 0, one * 0, one * -1]


class Vacuum:
    """Vacuum metric at xx in the coordinates (t, xx); cart(list of jets)->list of jets is the spatial map."""

    def __init__(self, seed, cart, xx, kind):
        rng = random.Random(f"vac:{seed}")
        N = 3
        V = [Jet.var(4, N, 0, mpf(repr(round(rng.uniform(-0.5, 0.5), 4))))] + [Jet.var(4, N, i + 1, mpf(xx[i])) for i in R]
        Xc = cart(V[1:])
        v = [mpf(repr(round(rng.uniform(-0.35, 0.35), 4))) for _ in R]
        L = boost_matrix(v)
        Q = rotation(rng)
        # inertial coordinates of the black hole / wave: Y = Q L (X - c)
        sc = max([abs(c.v) for c in Xc])
        if kind == "kerr":
            M = sc * mpf(repr(round(rng.uniform(0.1, 0.35), 4)))
            a = M * mpf(repr(round(rng.uniform(-0.9, 0.9), 4)))
            c = [0] + [mpf(repr(round(rng.uniform(-0.1, 0.1), 4))) * sc for _ in R]
        else:
            co = [mpf(repr(round(rng.uniform(-0.9, 0.9), 4))) for _ in range(12)]
            for i in range(4):
                k = sc ** (2 if i < 2 else 3)
                co[2 * i + 1] /= 3 * k
                co[8 + i] /= 3 * k
            c = [0] + [mpf(repr(round(rng.uniform(-0.2, 0.2), 4))) * sc for _ in R]
        X4 = [V[0]] + Xc
        X4 = [X4[m] - c[m] for m in R4]
        B = [sum((X4[n] * L[m][n] for n in R4), Jet.const(4, N, 0)) for m in R4]
        T = [[mpf(1 if m == n == 0 else 0) for n in R4] for m in R4]
        for i in R:
            for j in R:
                T[i + 1][j + 1] = Q[i][j]
        Y = [sum((B[n] * T[m][n] for n in R4), Jet.const(4, N, 0)) for m in R4]
        H, k = kerr_schild(Y, M, a) if kind == "kerr" else pp_wave(Y, co)
        J = [[Y[m].diff(n) for n in R4] for m in R4]        # dY^m/d(t,xx)^n
        H, k = H.trunc(N - 1), [q.trunc(N - 1) for q in k]
        eta = [-1, 1, 1, 1]
        Z = Jet.const(4, N - 1, 0)
        kk = [sum((k[m] * J[m][n] for m in R4), Z) for n in R4]
        self.g4 = g = [[None] * 4 for _ in R4]
        for m in R4:
            for n in range(m, 4):
                g[m][n] = g[n][m] = sum((J[q][m] * J[q][n] * eta[q] for q in R4), Z) + H * kk[m] * kk[n]
        self.split()
        self.riemann()

    def split(self):
        g = self.g4
        N = g[0][0].N
        gam = [[g[i + 1][j + 1] for j in R] for i in R]
        gi, det = inv3(gam)
        bD = [g[0][i + 1] for i in R]
        Z = Jet.const(4, N, 0)
        bU = [sum((gi[i][j] * bD[j] for j in R), Z) for i in R]
        a2 = sum((bU[i] * bD[i] for i in R), Z) - g[0][0]
        al = a2.sqrt()
        N1 = N - 1
        tr = lambda j: j.trunc(N1)
        dg = [[[gam[i][j].diff(k + 1) for k in R] for j in R] for i in R]
        Gl = [[[(dg[m][j][k] + dg[m][k][j] - dg[j][k][m]) * mpf("0.5") for k in R] for j in R] for m in R]
        Z1 = Jet.const(4, N1, 0)
        K = [[None] * 3 for _ in R]
        for i in R:
            for j in R:
                Db = bD[j].diff(i + 1) + bD[i].diff(j + 1) - sum((Gl[m][i][j] * tr(bU[m]) for m in R), Z1) * 2
                K[i][j] = (Db - gam[i][j].diff(0)) / (tr(al) * 2)

        def space(j):
            from jet import monos, index
            ix = index(4, j.N)
            return Jet(3, j.N, [j.c[ix[(0,) + m]] for m in monos(3, j.N)])
        self.gam = [[space(gam[i][j]) for j in R] for i in R]
        self.K = [[space(K[i][j]) for j in R] for i in R]
        self.alpha, self.beta = space(al), [space(b) for b in bU]
        self.normal = [1 / al.v] + [-b.v / al.v for b in bU]

    def riemann(self):
        g = self.g4
        N = g[0][0].N
        gi = matrix(4, 4)
        for m in R4:
            for n in R4:
                gi[m, n] = g[m][n].v
        gi = gi ** -1
        d1 = [[[g[m][n].d(k) for k in R4] for n in R4] for m in R4]
        Gl = [[[(d1[m][j][k] + d1[m][k][j] - d1[j][k][m]) / 2 for k in R4] for j in R4] for m in R4]
        # R_{abcd} = 1/2 (g_ad,bc + g_bc,ad - g_ac,bd - g_bd,ac) + g^{ef}(Gl_e,bc Gl_f,ad - Gl_e,bd Gl_f,ac)
        d2 = lambda m, n, p, q: g[m][n].d(p, q)
        self.Rm = [[[[None] * 4 for _ in R4] for _ in R4] for _ in R4]
        for a in R4:
            for b in R4:
                for c in R4:
                    for d in R4:
                        v = (d2(a, d, b, c) + d2(b, c, a, d) - d2(a, c, b, d) - d2(b, d, a, c)) / 2
                        for e in R4:
                            for f in R4:
                                if gi[e, f]:
                                    v += gi[e, f] * (Gl[e][b][c] * Gl[f][a][d] - Gl[e][b][d] * Gl[f][a][c])
                        self.Rm[a][b][c][d] = v
        self.ricci = max(abs(sum(gi[a, c] * self.Rm[a][b][c][d] for a in R4 for c in R4)) for b in R4 for d in R4)

    def vec(self, comp):
        """V = comp[0] u + comp[i] d_i, in coordinate components."""
        u = self.normal
        return [comp[0] * u[0]] + [comp[0] * u[i + 1] + comp[i + 1] for i in R]

    def contract(self, n, m):
        """R(n, m, n, m) for complex m."""
        S = mp.mpc(0)
        for a in R4:
            for b in R4:
                for c in R4:
                    for d in R4:
                        S += self.Rm[a][b][c][d] * n[a] * m[b] * n[c] * m[d]
        return S
