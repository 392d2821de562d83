"""3+1 general relativity on Taylor jets (independent of NRPy): curvature, Lie
derivatives, constraints, the ADM evolution equations and the BSSN variables."""
import random

from mpmath import mp, mpf

from jet import Jet, inv3

R = range(3)


def zero(N):
    return Jet.const(3, N, 0)


def S(terms, N):
    r = zero(N)
    for t in terms:
        r = r + t
    return r


def random_jet(rng, N, scale=1.0, const=0.0):
    from jet import monos
    c = [mpf(repr(round(rng.uniform(-1, 1) * scale, 6))) for _ in monos(3, N)]
    c[0] = c[0] * mpf("0.5") + mpf(repr(const))
    return Jet(3, N, c)


def christoffel(g, gi):
    """Gamma^i_jk as jets one degree lower."""
    N = g[0][0].N - 1
    dg = [[[g[i][j].diff(k) for k in R] for j in R] for i in R]
    gi = [[gi[i][j].trunc(N) for j in R] for i in R]
    return [[[S([gi[i][m] * (dg[m][j][k] + dg[m][k][j] - dg[j][k][m]) for m in R], N) * (mpf(1) / 2) for k in R] for j in R] for i in R]


def ricci(Gam):
    """R_jk from the jets of Gamma^i_jk."""
    N = Gam[0][0][0].N - 1
    G = [[[Gam[i][j][k].trunc(N) for k in R] for j in R] for i in R]
    return [[S([Gam[i][j][k].diff(i) - Gam[i][j][i].diff(k) for i in R]
              + [G[i][i][m] * G[m][j][k] - G[i][k][m] * G[m][j][i] for i in R for m in R], N) for k in R] for j in R]


def lie_dd(beta, T):
    """Lie derivative of T_ij, one degree lower."""
    N = T[0][0].N - 1
    b = [beta[i].trunc(N) for i in R]
    t = [[T[i][j].trunc(N) for j in R] for i in R]
    db = [[beta[k].diff(i).trunc(N) for i in R] for k in R]
    return [[S([b[k] * T[i][j].diff(k) + t[k][j] * db[k][i] + t[i][k] * db[k][j] for k in R], N) for j in R] for i in R]


class State:
    """gamma_ij, K_ij, alpha, beta^i, B^i (jets), T^{mu nu} (numbers), on reference geometry G."""

    def __init__(self, G, gam, K, alpha, beta, B, T4):
        self.G, self.g, self.K, self.alpha, self.beta, self.B, self.T4 = G, gam, K, alpha, beta, B, T4
        self.gi, self.det = inv3(gam)
        self.Gam = christoffel(gam, self.gi)
        self.Ric = ricci(self.Gam)

    # ---- matter
    def matter(self):
        g = [[self.g[i][j].v for j in R] for i in R]
        gi = [[self.gi[i][j].v for j in R] for i in R]
        b = [x.v for x in self.beta]
        a = self.alpha.v
        bD = [sum(g[i][j] * b[j] for j in R) for i in R]
        T = self.T4
        rho = a * a * T[0][0]
        # projection P_{i mu} = (beta_i, gamma_ij); n_nu = (-alpha,0,0,0)
        P = [[bD[i]] + [g[i][j] for j in R] for i in R]
        SD = [sum(P[i][m] * a * T[m][0] for m in range(4)) for i in R]
        SDD = [[sum(P[i][m] * P[j][n] * T[m][n] for m in range(4) for n in range(4)) for j in R] for i in R]
        Str = sum(gi[i][j] * SDD[i][j] for i in R for j in R)
        return rho, SD, SDD, Str

    def trK(self):
        return S([self.gi[i][j] * self.K[i][j] for i in R for j in R], self.K[0][0].N)

    def constraints(self):
        pi = mp.pi
        rho, SD, SDD, Str = self.matter()
        gi = [[self.gi[i][j].v for j in R] for i in R]
        Ric = [[self.Ric[i][j].v for j in R] for i in R]
        K = [[self.K[i][j].v for j in R] for i in R]
        Rs = sum(gi[i][j] * Ric[i][j] for i in R for j in R)
        k = sum(gi[i][j] * K[i][j] for i in R for j in R)
        KK = sum(gi[i][a] * gi[j][b] * K[i][j] * K[a][b] for i in R for j in R for a in R for b in R)
        H = Rs + k * k - KK - 16 * pi * rho
        # D_c K_ab
        G0 = [[[self.Gam[i][j][m].v for m in R] for j in R] for i in R]
        DK = [[[self.K[a][b].d(c) - sum(G0[m][a][c] * K[m][b] + G0[m][b][c] * K[a][m] for m in R) for c in R] for b in R] for a in R]
        dk = [self.trK().d(c) for c in R]
        M = [sum(gi[i][a] * gi[b][c] * DK[a][b][c] for a in R for b in R for c in R)
             - sum(gi[i][j] * (dk[j] + 8 * pi * SD[j]) for j in R) for i in R]
        return H, M

    def dt_metric(self):
        """d_t gamma_ij, one degree lower."""
        L = lie_dd(self.beta, self.g)
        N = L[0][0].N
        return [[L[i][j] - self.alpha.trunc(N) * self.K[i][j].trunc(N) * 2 for j in R] for i in R]

    def dt_K(self):
        """d_t K_ij (numbers)."""
        pi = mp.pi
        rho, SD, SDD, Str = self.matter()
        L = lie_dd(self.beta, self.K)
        a = self.alpha.v
        gi = [[self.gi[i][j].v for j in R] for i in R]
        K = [[self.K[i][j].v for j in R] for i in R]
        k = sum(gi[i][j] * K[i][j] for i in R for j in R)
        out = []
        for i in R:
            row = []
            for j in R:
                DDa = self.alpha.d(i, j) - sum(self.Gam[m][i][j].v * self.alpha.d(m) for m in R)
                v = -DDa + a * (self.Ric[i][j].v + k * K[i][j] - 2 * sum(K[i][c] * gi[c][d] * K[d][j] for c in R for d in R))
                v += -8 * pi * a * (SDD[i][j] - self.g[i][j].v * (Str - rho) / 2) + L[i][j].v
                row.append(v)
            out.append(row)
        return out


def trunc(T, N):
    return [trunc(x, N) for x in T] if isinstance(T, list) else T.trunc(N)


def bssn(G, g, K, cfopt):
    """Conformal variables from jets of gamma_ij and K_ij; every jet at the highest degree available."""
    N = g[0][0].N
    gi, det = inv3(g)
    ratio = det / G.det.trunc(N)            # e^{12 phi}
    em4 = ratio.pw(-mpf(1) / 3)
    NK = K[0][0].N
    trK = S([gi[i][j].trunc(NK) * K[i][j] for i in R for j in R], NK)
    gb = [[g[i][j] * em4 for j in R] for i in R]
    Ab = [[em4.trunc(NK) * (K[i][j] - g[i][j].trunc(NK) * trK * (mpf(1) / 3)) for j in R] for i in R]
    gbi, _ = inv3(gb)
    Gb = christoffel(gb, gbi)
    N1 = N - 1
    DG = [[[Gb[i][j][k] - G.Gam[i][j][k].trunc(N1) for k in R] for j in R] for i in R]
    Lam = [S([gbi[j][k].trunc(N1) * DG[i][j][k] for j in R for k in R], N1) for i in R]
    h = G.h
    out = dict(gb=gb, gbi=gbi, Gb=Gb, DG=DG, Lam=Lam, Ab=Ab, trK=trK, em4=em4)
    if cfopt == "W":
        out["cf"] = ratio.pw(-mpf(1) / 6)
    elif cfopt == "chi":
        out["cf"] = em4
    else:
        # phi = log(ratio)/12
        x = ratio.c[0]
        co = [mp.log(x)] + [(-1) ** (k + 1) / (k * x ** k) for k in range(1, N + 1)]
        out["cf"] = ratio.apply(co) * (mpf(1) / 12)
    out["h"] = [[(gb[i][j] - G.g[i][j].trunc(N)) / (h[i] * h[j]).trunc(N) for j in R] for i in R]
    out["a"] = [[Ab[i][j] / (h[i] * h[j]).trunc(NK) for j in R] for i in R]
    out["lam"] = [Lam[i] * h[i].trunc(N1) for i in R]
    return out


def random_state(G, seed, on=("h", "K", "alpha", "beta", "B", "T")):
    rng = random.Random(f"adm:{seed}")
    N = 2
    h = [x.trunc(N) for x in G.h]
    conf = random_jet(rng, N, 0.3, 1.0) if "cf" in on else Jet.const(3, N, 1)
    conf = conf.exp() * mp.exp(-1)
    g = [[None] * 3 for _ in R]
    K = [[None] * 3 for _ in R]
    for i in R:
        for j in range(i, 3):
            e = random_jet(rng, N, 0.25)
            g[i][j] = g[j][i] = conf * (G.g[i][j].trunc(N) + (h[i] * h[j] * e if "h" in on else zero(N)))
            k = random_jet(rng, N, 0.6)
            K[i][j] = K[j][i] = h[i] * h[j] * k if "K" in on else zero(N)
    al = random_jet(rng, N, 0.4, 1.2)
    alpha = al if "alpha" in on else Jet.const(3, N, 1)
    bj = [random_jet(rng, N, 0.5) for _ in R]
    Bj = [random_jet(rng, N, 0.5) for _ in R]
    beta = [bj[i] / h[i] if "beta" in on else zero(N) for i in R]
    B = [Bj[i] / h[i] if "B" in on else zero(N) for i in R]
    T = [[mpf(0)] * 4 for _ in range(4)]
    for m in range(4):
        for n in range(m, 4):
            t = mpf(repr(round(rng.uniform(-0.3, 0.3), 6)))
            sc = (1 / h[m - 1].v if m else 1) * (1 / h[n - 1].v if n else 1)
            T[m][n] = T[n][m] = t * sc if "T" in on else mpf(0)
    return State(G, g, K, alpha, beta, B, T)


def flow(G, st, cf):
    """dt(f): time derivative of f(BSSN variables) along the exact ADM flow, by a central difference in 40 digits."""
    gdot, Kdot = st.dt_metric(), st.dt_K()
    eps = mpf(10) ** -12
    g1, K0 = trunc(st.g, 1), trunc(st.K, 0)
    ser = []
    for s in (1, -1):
        gg = [[g1[i][j] + gdot[i][j] * (s * eps) for j in R] for i in R]
        kk = [[K0[i][j] + s * eps * Kdot[i][j] for j in R] for i in R]
        ser.append(bssn(G, gg, kk, cf))
    return lambda f: (f(ser[0]) - f(ser[1])) / (2 * eps)


def gauge_rhs(st, b, G, dt, M, em4, lapse, shift, eta, B_adv=None):
    """(d_t alpha, d_t beta^i, d_t B^i) of the stated gauge conditions (unrescaled)."""
    a = st.alpha.v
    beta, B = [x.v for x in st.beta], [x.v for x in st.B]
    dal = [st.alpha.d(i) for i in R]
    K = b["trK"].v
    adv = sum(beta[i] * dal[i] for i in R)
    if lapse == "OnePlusLog":
        w = adv - 2 * a * K
    elif lapse == "OnePlusLogAlt":
        w = adv - a * (1 - a) * K
    elif lapse == "Frozen":
        w = mpf(0)
    else:
        w = dt(lambda x: x["em4"].v ** (-mpf(3) / 2))       # d_t e^{6 phi}
    eta = mpf(eta)
    Lam = [x.v for x in b["Lam"]]
    dLam = [[b["Lam"][i].d(j) for j in R] for i in R]
    Ldot = [dt(lambda x: x["Lam"][i].v) + 2 * a * M[i] / em4 for i in R]
    db = [[st.beta[i].d(j) for j in R] for i in R]
    dB = [[(B_adv or st.B)[i].d(j) for j in R] for i in R]
    Gb = [[[b["Gb"][i][j][k].v for k in R] for j in R] for i in R]
    Gh = [[[G.Gam[i][j][k].v for k in R] for j in R] for i in R]
    Z = [[[mpf(0)] * 3 for _ in R] for _ in R]
    conn = Gh if "Hatted" in shift else Gb if "Covariant" in shift and "NoCovariant" not in shift else Z

    def D(V, dV):
        return [sum(beta[j] * (dV[i][j] + sum(conn[i][m][j] * V[m] for m in R)) for j in R) for i in R]
    if shift == "Frozen":
        br, Br = [mpf(0)] * 3, [mpf(0)] * 3
    elif shift == "NonAdvectingGammaDriving":
        br = B
        Br = [Ldot[i] * mpf(3) / 4 - eta * B[i] for i in R]
    elif "1stOrder" in shift:
        x = D(beta, db)
        br = [x[i] + mpf(3) / 4 * Lam[i] - eta * beta[i] for i in R]
        Br = [mpf(0)] * 3
    else:
        x, y, z = D(beta, db), D(B, dB), D(Lam, dLam)
        br = [x[i] + B[i] for i in R]
        Br = [y[i] + mpf(3) / 4 * (Ldot[i] - z[i]) - eta * B[i] for i in R]
    return w, br, Br
