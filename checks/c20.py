#!/usr/bin/env python3
"""C20: relativistic hydrodynamics (conserved variables, fluxes, sources, Riemann solver) and relativistic stars."""
import io, json, os, random, sys
import contextlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Violation, require
import c16

C = vp.Check("C20", assumptions=[
    "perfect fluid with normalised four-velocity; states satisfy det(gammabar)=det(gammahat), for which e^{6phi} is the ratio of the volume elements",
    "points away from coordinate singularities",
    "star: simple polytrope with Gamma in [1.7, 2.2] (stiffer ones lose the finely sampled surface layer of the solver and reach only 1e-2) below the maximum mass with the default step control and a tight error limit; tolerances follow the solver's error limit",
])
R, R4 = range(3), range(4)


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def fluid(rng, g4, al, beta, g):
    """random primitive state with a normalised four-velocity; returns rho, P, h, Ye, u^mu"""
    from mpmath import mp, mpf
    u = lambda a, b: mpf(repr(round(rng.uniform(a, b), 6)))
    # Eulerian velocity w^i with w^2 < 1
    import adm  # noqa
    w = [u(-1, 1) / mp.sqrt(g[i][i]) for i in R]
    w2 = sum(g[i][j] * w[i] * w[j] for i in R for j in R)
    sc = u(0, 0.97) / mp.sqrt(w2)
    if rng.random() < 0.1:
        sc = mpf(0)
    w = [x * sc for x in w]
    W = 1 / mp.sqrt(1 - sum(g[i][j] * w[i] * w[j] for i in R for j in R))
    u0 = W / al
    uU = [u0] + [W * w[i] - u0 * beta[i] for i in R]
    n = sum(g4[m][k] * uU[m] * uU[k] for m in R4 for k in R4)
    assert abs(n + 1) < mpf(10) ** -20
    rho = u(0.001, 2)
    return dict(rho=rho, P=u(0, 1), h=1 + u(0, 3), Ye=u(0, 0.6), u=uU)


def metric4(al, beta, g, gi):
    from mpmath import mpf
    bD = [sum(g[i][j] * beta[j] for j in R) for i in R]
    g4 = [[-al ** 2 + sum(bD[i] * beta[i] for i in R)] + bD] + [[bD[i]] + [g[i][j] for j in R] for i in R]
    g4u = [[-1 / al ** 2] + [beta[i] / al ** 2 for i in R]] + [[beta[i] / al ** 2] + [gi[i][j] - beta[i] * beta[j] / al ** 2 for j in R] for i in R]
    return g4, g4u


def conserved(f, g4, g4u, al, e6):
    """conserved variables and fluxes from T^{mu nu}"""
    u = f["u"]
    TUU = [[f["rho"] * f["h"] * u[m] * u[n] + f["P"] * g4u[m][n] for n in R4] for m in R4]
    TUD = [[sum(TUU[m][k] * g4[k][n] for k in R4) for n in R4] for m in R4]
    v = [u[i + 1] / u[0] for i in R]
    D = al * e6 * f["rho"] * u[0]
    U = dict(rho_star=D, Ye_star=f["Ye"] * D, tau=al ** 2 * e6 * TUU[0][0] - D, S=[al * e6 * TUD[0][i + 1] for i in R])
    F = [dict(rho_star=D * v[j], Ye_star=f["Ye"] * D * v[j], tau=al ** 2 * e6 * TUU[0][j + 1] - D * v[j], S=[al * e6 * TUD[j + 1][i + 1] for i in R]) for j in R]
    return TUU, TUD, U, F


def eq_cases(tier, rng):
    from coords import SYSTEMS
    reps = 1 if tier == "quick" else 8
    out = []
    for _ in range(reps):
        for s in SYSTEMS:
            out.append(dict(coord=s, cf=rng.choice(["W", "chi", "phi"]), pre=rng.random() < 0.4, pts=3 if tier == "quick" else 15, seed=rng.randrange(10 ** 9)))
    return out


def run_eq(c):
    from mpmath import mp, mpf
    import adm
    from symeval import Evaluator
    coord, cf, pre = c["coord"], c["cf"], c["pre"]
    c16.setup(cf)
    from nrpy.equations.grhd.GRHD_equations import GRHD_Equations
    with quiet():
        E = GRHD_Equations(coord, pre)
        E.construct_all_equations()
        E.compute_vU_from_u4U__no_speed_limit()
    n = 0
    for k in range(c["pts"]):
        sd = c["seed"] + k
        p, xx, G, st = c16.prepare(dict(coord=coord, seed=sd), ["h", "K", "alpha", "beta", "B", "cf"])
        if not c16.posdef(st):
            continue
        b = adm.bssn(G, st.g, st.K, cf)
        env, _ = c16.make_env(coord, p, xx, st, b, "2.0", pre)
        rng = random.Random(f"c20:{sd}")
        al, beta = st.alpha.v, [x.v for x in st.beta]
        g = [[st.g[i][j].v for j in R] for i in R]
        gi = [[st.gi[i][j].v for j in R] for i in R]
        K = [[st.K[i][j].v for j in R] for i in R]
        g4, g4u = metric4(al, beta, g, gi)
        e6 = mp.sqrt(st.det.v / G.det.v)
        f = fluid(rng, g4, al, beta, g)
        h = [x.v for x in G.h]
        u = f["u"]
        env.update(u4Ut=u[0], rhob=f["rho"], P=f["P"], h=f["h"], Ye=f["Ye"], TINYDOUBLE=mpf(10) ** -100)
        for i in R:
            env[f"rescaledvU{i}"] = u[i + 1] / u[0] * h[i]
        ev = Evaluator(env)
        tag = f"{coord} pre={pre} cf={cf} seed={sd}"
        TUU, TUD, U, F = conserved(f, g4, g4u, al, e6)
        H = [mpf(1)] + h
        big = 1 + max(abs(TUU[m][n] * H[m] * H[n]) for m in R4 for n in R4) * (1 + al ** 2) * max(1, e6)

        def eq(name, e, want, sc):
            try:
                got = mp.mpmathify(ev(e))
            except KeyError as ex:
                raise Violation(f"{tag}: {name} contains {ex}")
            require(mp.isfinite(got) and abs(got - want) * sc <= mpf(10) ** -11 * (abs(want) * sc + big), f"{tag}: {name} is {mp.nstr(got, 15)}, expected {mp.nstr(want, 15)}")
        for m in R4:
            for n_ in R4:
                eq(f"T4UU[{m}][{n_}]", E.T4UU[m][n_], TUU[m][n_], H[m] * H[n_])
                eq(f"T4UD[{m}][{n_}]", E.T4UD[m][n_], TUD[m][n_], H[m] / H[n_])
                eq(f"rescaledT4UU[{m}][{n_}]", E.rescaledT4UU[m][n_], TUU[m][n_] * H[m] * H[n_], 1)
                eq(f"rescaledT4UD[{m}][{n_}]", E.rescaledT4UD[m][n_], TUD[m][n_] * H[m] / H[n_], 1)
        eq("rho_star", E.rho_star, U["rho_star"], 1)
        eq("Ye_star", E.Ye_star, U["Ye_star"], 1)
        eq("tau_tilde", E.tau_tilde, U["tau"], 1)
        for i in R:
            eq(f"S_tildeD[{i}]", E.S_tildeD[i], U["S"][i], 1 / h[i])
            eq(f"rescaledS_tildeD[{i}]", E.rescaledS_tildeD[i], U["S"][i] / h[i], 1)
            eq(f"VU_from_u4U[{i}]", E.VU_from_u4U[i], u[i + 1] / u[0], h[i])
            eq(f"VU[{i}]", E.VU[i], u[i + 1] / u[0], h[i])
        for j in R:
            for nm, key in (("rho_star_fluxU", "rho_star"), ("Ye_star_fluxU", "Ye_star"), ("tau_tilde_fluxU", "tau")):
                eq(f"{nm}[{j}]", getattr(E, nm)[j], F[j][key], h[j])
                eq(f"rescaled_{nm}[{j}]", getattr(E, "rescaled_" + nm)[j], F[j][key] * h[j], 1)
            for i in R:
                eq(f"S_tilde_fluxUD[{j}][{i}]", E.S_tilde_fluxUD[j][i], F[j]["S"][i], h[j] / h[i])
                eq(f"rescaled_S_tilde_fluxUD[{j}][{i}]", E.rescaled_S_tilde_fluxUD[j][i], F[j]["S"][i] * h[j] / h[i], 1)
        # ---- sources: 4-dimensional conservation law on a spacetime with these data and random d_t of lapse and shift
        gt = st.dt_metric()
        dta, dtb = mpf(repr(round(rng.uniform(-1, 1), 5))), [mpf(repr(round(rng.uniform(-1, 1), 5))) / h[i] for i in R]
        da = [st.alpha.d(k_) for k_ in R]
        db = [[st.beta[i].d(k_) for k_ in R] for i in R]
        dg = [[[gt[i][j].v for j in R] for i in R]] + [[[st.g[i][j].d(k_) for j in R] for i in R] for k_ in R]
        dal = [dta] + da
        dbe = [dtb] + [[db[i][k_] for i in R] for k_ in R]
        d4 = []      # d4[k][m][n] = d_k g_mn
        for q in R4:
            dbD = [sum(dg[q][i][j] * beta[j] + g[i][j] * dbe[q][j] for j in R) for i in R]
            bD = [sum(g[i][j] * beta[j] for j in R) for i in R]
            d00 = -2 * al * dal[q] + sum(dbD[i] * beta[i] + bD[i] * dbe[q][i] for i in R)
            d4.append([[d00] + dbD] + [[dbD[i]] + [dg[q][i][j] for j in R] for i in R])
        hGam = [sum(G.Gam[i][i][j].v for i in R) for j in R]
        gsc = mpf(1) + max(abs(x) * h[j] for j, x in enumerate(hGam)) + max(abs(G.Gam[a][b_][c_].v) * h[a] / h[b_] / h[c_] * (1 if True else 0) for a in R for b_ in R for c_ in R)
        for i in R:
            src = al * e6 * sum(TUU[m][n_] * d4[i + 1][m][n_] for m in R4 for n_ in R4) / 2 - sum(hGam[l] * F[l]["S"][i] for l in R)
            try:
                got = ev(E.S_tilde_source_termD[i]) - ev(E.S_tilde_connection_termsD[i])
            except KeyError as ex:
                raise Violation(f"{tag}: momentum source contains {ex}")
            require(mp.isfinite(got) and abs(got - src) / h[i] <= mpf(10) ** -10 * (abs(src) / h[i] + big * gsc * 100),
                    f"{tag}: momentum source minus connection term [{i}] is {mp.nstr(got, 15)}, conservation of T^mu_nu needs {mp.nstr(src, 15)}")
            want = sum(hGam[l] * F[l]["S"][i] for l in R) - sum(G.Gam[l][j][i].v * F[j]["S"][l] for j in R for l in R)
            got = ev(E.S_tilde_connection_termsD[i])
            require(abs(got - want) / h[i] <= mpf(10) ** -10 * (abs(want) / h[i] + big * gsc * 100), f"{tag}: S_tilde_connection_termsD[{i}] is {mp.nstr(got, 15)}, expected {mp.nstr(want, 15)}")
        for nm, key in (("rho_star_connection_term", "rho_star"), ("Ye_star_connection_term", "Ye_star"), ("tau_connection_term", "tau")):
            want = sum(hGam[l] * F[l][key] for l in R)
            got = ev(getattr(E, nm))
            require(abs(got - want) <= mpf(10) ** -10 * (abs(want) + big * gsc), f"{tag}: {nm} is {mp.nstr(got, 15)}, expected {mp.nstr(want, 15)}")
        # energy: -alpha e6 T^{mu nu} nabla_mu n_nu, n_mu = (-alpha, 0, 0, 0)
        Gam0 = [[sum(g4u[0][s] * (d4[m][s][n_] + d4[n_][s][m] - d4[s][m][n_]) for s in R4) / 2 for n_ in R4] for m in R4]
        want = -al * e6 * sum(TUU[m][n_] * ((-dal[m] if n_ == 0 else 0) + al * Gam0[m][n_]) for m in R4 for n_ in R4)
        got = ev(E.tau_source_term)
        require(abs(got - want) <= mpf(10) ** -10 * (abs(want) + big * gsc), f"{tag}: tau_source_term is {mp.nstr(got, 15)}, conservation of energy needs {mp.nstr(want, 15)}")
        n += 1
    return f"{coord}{'+pre' if pre else ''} {cf}" if n else None


C.add_list("equations", eq_cases, run_eq, shards=8, budget=300, budget_thorough=3000, rule="at least one positive definite random spacetime point with a random perfect fluid compared for every conserved variable, flux and source")


# --------------------------------------------------------------------------------- Riemann solver
_RS = {}


def rs_exprs(d):
    if d not in _RS:
        import sympy as sp
        import nrpy.indexedexp as ixp
        from nrpy.equations.grhd import HLL_fluxes as hl, characteristic_speeds as cs
        c16.setup("W")
        S = lambda n: sp.Symbol(n, real=True)
        gam = ixp.declarerank2("gfDD", symmetry="sym01", dimension=3)
        beta = ixp.declarerank1("bfU", dimension=3)
        uu = {s: [S(f"u4{s}{m}") for m in R4] for s in "rl"}
        al, e6 = S("alf"), S("e6f")
        n = lambda x: {s: S(f"{x}_{s}") for s in "rl"}
        rho, Ye, P, h, c2 = n("rho"), n("Ye"), n("P"), n("h"), n("cs2")
        keep = json.dumps([[str(x) for x in r] for r in gam])
        with quiet():
            fl = hl.calculate_HLL_fluxes(d, al, gam, beta, e6, uu["r"], uu["l"], rho["r"], rho["l"], Ye["r"], Ye["l"], P["r"], P["l"], h["r"], h["l"], c2["r"], c2["l"])
            uf = {s: hl.calculate_GRHD_Tmunu_and_contractions(d, gam, beta, al, e6, rho[s], Ye[s], P[s], h[s], uu[s]) for s in "rl"}
            cm = cs.find_cmax_cmin(d, gam, beta, al, uu["r"], uu["l"], c2["r"], c2["l"])
            from nrpy.equations.general_relativity.g4munu_conversions import ADM_to_g4UU
            g4 = ADM_to_g4UU(gam, beta, al)
            cp = {s: cs.find_cp_cm(d, g4, uu[s], c2[s]) for s in "rl"}
        require(keep == json.dumps([[str(x) for x in r] for r in gam]), "calculate_HLL_fluxes changed the metric it was given")
        _RS[d] = (fl, uf, cm, cp)
    return _RS[d]


def rs_strategy():
    from hypothesis import strategies as st
    f = lambda a, b: st.floats(a, b, allow_nan=False).map(lambda x: round(x, 5))
    return st.fixed_dictionaries(dict(dirn=st.integers(0, 2), seed=st.integers(0, 2 ** 31), cs2=st.tuples(st.one_of(st.sampled_from([0.0, 0.999]), f(0, 0.99)), st.one_of(st.sampled_from([0.0]), f(0, 0.99))),
                                      same=st.booleans(), e6=f(0.2, 4), al=f(0.1, 2), shift=st.one_of(st.just(0.0), f(0, 3)), aniso=f(0, 0.4)))


def run_rs(c):
    from mpmath import mp, mpf
    from symeval import Evaluator
    mp.dps = 40
    d = c["dirn"]
    fl, uf, cm, cp = rs_exprs(d)
    rng = random.Random(f"rs:{c['seed']}")
    u = lambda a, b: mpf(repr(round(rng.uniform(a, b), 6)))
    A = [[(1 + u(-0.3, 1.5) if i == j else u(-1, 1) * mpf(c["aniso"])) for j in R] for i in R]
    g = [[sum(A[k][i] * A[k][j] for k in R) for j in R] for i in R]
    gm = mp.matrix(g)
    if mp.det(gm) < mpf("0.01"):
        return None
    inv = gm ** -1
    gi = [[inv[i, j] for j in R] for i in R]
    al, beta = mpf(repr(c["al"])), [u(-1, 1) * mpf(repr(c["shift"])) for _ in R]
    g4, g4u = metric4(al, beta, g, gi)
    e6 = mpf(repr(c["e6"]))
    f = {"r": fluid(rng, g4, al, beta, g)}
    f["l"] = f["r"] if c["same"] else fluid(rng, g4, al, beta, g)
    c2 = dict(zip("rl", [mpf(repr(x)) for x in c["cs2"]]))
    if c["same"]:
        c2["l"] = c2["r"]
    env = dict(alf=al, e6f=e6, TINYDOUBLE=mpf(10) ** -100)
    for i in R:
        env[f"bfU{i}"] = beta[i]
        for j in R:
            env[f"gfDD{i}{j}"] = g[i][j]
    for s in "rl":
        for m in R4:
            env[f"u4{s}{m}"] = f[s]["u"][m]
        env.update({f"rho_{s}": f[s]["rho"], f"Ye_{s}": f[s]["Ye"], f"P_{s}": f[s]["P"], f"h_{s}": f[s]["h"], f"cs2_{s}": c2[s]})
    ev = Evaluator(env)
    tag = f"direction {d} {c}"
    # ---- sound cone
    sp = {}
    for s in "rl":
        lo, hi = [ev(x) for x in cp[s]]
        require(lo <= hi + mpf(10) ** -30, f"{tag}: characteristic speeds out of order {lo} {hi}")
        U = f[s]["u"]
        # independent roots of w^2 = cs2 kperp^2 along k = (-lam, e_d)
        q = lambda lam: (lambda w, kk: w * w * (1 - c2[s]) - c2[s] * kk)(lam * U[0] - U[d + 1], g4u[0][0] * lam ** 2 - 2 * lam * g4u[0][d + 1] + g4u[d + 1][d + 1])
        a0, a1, am = q(mpf(0)), q(mpf(1)), q(mpf(-1))
        qa, qb = (a1 + am) / 2 - a0, (a1 - am) / 2
        disc = qb * qb - 4 * qa * a0
        disc = mp.sqrt(max(mpf(0), disc))
        want = sorted([(-qb - disc) / (2 * qa), (-qb + disc) / (2 * qa)])
        for got, w in zip((lo, hi), want):
            require(abs(got - w) <= mpf(10) ** -12 * (1 + abs(w)), f"{tag}: characteristic speed {mp.nstr(got, 12)}, sound cone gives {mp.nstr(w, 12)}")
        # fluid moves inside its sound cone, which lies inside the light cone
        v = U[d + 1] / U[0]
        require(lo - mpf(10) ** -12 <= v <= hi + mpf(10) ** -12, f"{tag}: fluid velocity {v} outside its characteristic speeds {lo}, {hi}")
        l0 = al * mp.sqrt(gi[d][d])
        require(-beta[d] - l0 - mpf(10) ** -12 <= lo and hi <= -beta[d] + l0 + mpf(10) ** -12, f"{tag}: superluminal characteristic speed {lo} {hi}")
        sp[s] = want
    cmin, cmax = [ev(x) for x in cm]
    wmax, wmin = max(mpf(0), sp["r"][1], sp["l"][1]), -min(mpf(0), sp["r"][0], sp["l"][0])
    require(abs(cmax - wmax) < mpf(10) ** -12 * (1 + wmax) and abs(cmin - wmin) < mpf(10) ** -12 * (1 + wmin), f"{tag}: cmin, cmax = {mp.nstr(cmin, 12)}, {mp.nstr(cmax, 12)}, expected {mp.nstr(wmin, 12)}, {mp.nstr(wmax, 12)}")
    UF = {}
    for s in "rl":
        _T, _D, U, F = conserved(f[s], g4, g4u, al, e6)
        UF[s] = (U, F[d])
        for nm, e, w in zip(("U_rho_star", "F_rho_star", "U_Ye_star", "F_Ye_star", "U_tau_tilde", "F_tau_tilde"), uf[s][:6],
                            (U["rho_star"], F[d]["rho_star"], U["Ye_star"], F[d]["Ye_star"], U["tau"], F[d]["tau"])):
            got = ev(e)
            require(abs(got - w) <= mpf(10) ** -12 * (1 + abs(w) + abs(U["tau"])), f"{tag}: {nm} is {mp.nstr(got, 12)}, expected {mp.nstr(w, 12)}")
        for i in R:
            for nm, e, w in (("U_S", uf[s][6][i], U["S"][i]), ("F_S", uf[s][7][i], F[d]["S"][i])):
                got = ev(e)
                require(abs(got - w) <= mpf(10) ** -12 * (1 + abs(w) + abs(U["tau"])), f"{tag}: {nm}[{i}] is {mp.nstr(got, 12)}, expected {mp.nstr(w, 12)}")
    if wmax + wmin < mpf(10) ** -6:
        return None

    def hll(Fr, Fl, Ur, Ul):
        sl, sr = -wmin, wmax
        return (sr * Fl - sl * Fr + sl * sr * (Ur - Ul)) / (sr - sl)
    names = [("rho_star", fl[0]), ("Ye_star", fl[1]), ("tau", fl[2])]
    big = 1 + sum(abs(UF[s][0]["tau"]) + abs(UF[s][1]["tau"]) for s in "rl") + sum(abs(UF[s][k]["S"][i]) for s in "rl" for k in (0, 1) for i in R)
    big = big * (1 + 1 / (wmax + wmin))
    chk = [(k, e, hll(UF["r"][1][k], UF["l"][1][k], UF["r"][0][k], UF["l"][0][k]), UF["r"][1][k]) for k, e in names]
    chk += [(f"S[{i}]", fl[3][i], hll(UF["r"][1]["S"][i], UF["l"][1]["S"][i], UF["r"][0]["S"][i], UF["l"][0]["S"][i]), UF["r"][1]["S"][i]) for i in R]
    for k, e, w, phys in chk:
        got = ev(e)
        require(abs(got - w) <= mpf(10) ** -10 * (abs(w) + big), f"{tag}: HLL flux of {k} is {mp.nstr(got, 12)}, expected {mp.nstr(w, 12)}")
        if c["same"]:
            require(abs(got - phys) <= mpf(10) ** -10 * (abs(phys) + big), f"{tag}: HLL flux of {k} between equal states is {mp.nstr(got, 12)}, not the physical flux {mp.nstr(phys, 12)}")
    return f"dirn{d}{' same' if c['same'] else ''}{' supersonic' if min(wmin, wmax) == 0 else ''}"


C.add("riemann", rs_strategy, run_rs, quick=240, thorough=20000, shards=6, budget=120, budget_thorough=1500, rule="two random fluid states (or one repeated) at a face with a random metric and shift")


# --------------------------------------------------------------------------------- branch-free min/max, through C
def mm_strategy():
    from hypothesis import strategies as st
    v = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.5]), st.floats(-1e3, 1e3, allow_nan=False).map(lambda x: round(x, 6)))
    return st.fixed_dictionaries(dict(a=v, b=v, z=st.sampled_from(["", "a", "b"]), float0=st.booleans()))


_MM = {}


def mm_exe():
    if "e" not in _MM:
        import sympy as sp
        import nr
        import nrpy.c_codegen as ccg
        from nrpy.equations.grhd import Min_Max_and_Piecewise_Expressions as m
        a, b = sp.symbols("a b", real=True)
        ex, lhs = [], []
        for z, (x, y) in (("", (a, b)), ("a", (sp.sympify(0), b)), ("b", (a, sp.sympify(0))), ("fa", (0.0, b)), ("fb", (a, 0.0))):
            ex += [m.min_noif(x, y), m.max_noif(x, y)]
        ex += [m.coord_leq_bound(a, b), m.coord_geq_bound(a, b), m.coord_less_bound(a, b), m.coord_greater_bound(a, b)]
        lhs = [f"o[{i}]" for i in range(len(ex))]
        with quiet():
            body = ccg.c_codegen(ex, lhs, include_braces=False, verbose=False)
        src = "#include <stdio.h>\n#include <math.h>\n#define REAL double\n#define TINYDOUBLE 1e-100\nint main(){double a,b,o[14];while(scanf(\"%lf %lf\",&a,&b)==2){" + body + "for(int i=0;i<14;i++)printf(\"%.17g \",o[i]);printf(\"\\n\");fflush(stdout);}return 0;}"
        d = vp.fresh_dir()
        _MM["e"] = compile1(src, d)
    return _MM["e"]


def compile1(src, d):
    with open(os.path.join(d, "m.c"), "w") as f:
        f.write(src)
    r = vp.sh(["gcc", "-O0", "-ffp-contract=off", "-o", os.path.join(d, "m"), os.path.join(d, "m.c"), "-lm"])
    require(r.returncode == 0, f"generated min/max code does not compile: {r.stderr[:800]}")
    return os.path.join(d, "m")


def run_mm(c):
    a, b = c["a"], c["b"]
    r = vp.run_exe(mm_exe(), input=f"{a!r} {b!r}\n".encode())
    require(r.returncode == 0, f"program failed {r.stderr[:200]}")
    o = [float(x) for x in r.stdout.split()]
    want = [min(a, b), max(a, b), min(0, b), max(0, b), min(a, 0), max(a, 0), min(0, b), max(0, b), min(a, 0), max(a, 0), float(a <= b), float(a >= b), float(a < b), float(a > b)]
    pend = None
    for i, (g, w) in enumerate(zip(o, want)):
        if i >= 10 and a == b and a != 0 and not (g == g and abs(g) < 1e30):
            pend = Violation(f"comparison {('<=', '>=', '<', '>')[i - 10]} at a=b={a!r} gives {g!r}, expected {w!r}", signature="coord-bound-not-finite-at-equality")
            continue
        require(abs(g - w) <= 4e-16 * (abs(a) + abs(b)) + 1e-90 if i < 10 else abs(g - w) < 1e-12, f"expression {i} (min/max pairs, then <=, >=, <, >) at a={a!r} b={b!r} gives {g!r}, expected {w!r}")
    if pend:
        pend.tag = "tie"
        raise pend
    return "tie" if a == b else "apart"


C.add("minmax", mm_strategy, run_mm, quick=400, thorough=8000, shards=2, budget=40, rule="pairs with ties and zeros through the generated C")


# --------------------------------------------------------------------------------- stars
def star_strategy():
    from hypothesis import strategies as st
    f = lambda a, b: st.floats(a, b, allow_nan=False).map(lambda x: round(x, 5))
    return st.fixed_dictionaries(dict(Gamma=st.one_of(st.sampled_from([2.0]), f(1.7, 2.2)), x=f(0.01, 0.25), K=st.one_of(st.just(1.0), f(0.2, 120.0)), sten=st.sampled_from([5, 7, 9, 11, 13]), seed=st.integers(0, 2 ** 31)))


STAR_MAIN = r"""#include "BHaH_defines.h"
void TOVola_solve(const commondata_struct *restrict commondata, ID_persist_struct *ID_persist);
void TOVola_interp(const commondata_struct *restrict commondata, const params_struct *restrict params, const REAL xCart[3], const ID_persist_struct *restrict ID_persist, initial_data_struct *restrict initial_data);
int main(int argc, char **argv) {
  commondata_struct c; memset(&c, 0, sizeof c); params_struct p; memset(&p, 0, sizeof p);
@SET@
  FILE *out = fopen(argv[1], "w"), *in = fopen(argv[2], "r");
  int n; if(fscanf(in, "%lf %lf %lf %d %d", &c.initial_central_density, &c.poly_eos_K, &c.poly_eos_Gamma, &c.interpolation_stencil_size, &n) != 5) return 3;
  ID_persist_struct id; memset(&id, 0, sizeof id);
  TOVola_solve(&c, &id);
  const int N = id.numpoints_arr;
  fprintf(out, "%d %.17g %.17g %.17g\n", N, id.r_Schw_arr[N-1], id.M_arr[N-1], id.r_iso_arr[N-1]);
  for(int i = 0; i < n; i++) {
    double u[3]; REAL x[3]; if(fscanf(in, "%lf %lf %lf", u, u + 1, u + 2) != 3) return 3;
    for(int k = 0; k < 3; k++) x[k] = u[k] * id.r_iso_arr[N-1];
    initial_data_struct d; double *q = (double *)&d; for(unsigned k = 0; k < sizeof(d) / 8; k++) q[k] = NAN;
    TOVola_interp(&c, &p, x, &id, &d);
    for(unsigned k = 0; k < sizeof(d) / 8; k++) fprintf(out, "%.17g ", q[k]);
    fprintf(out, "\n");
  }
  for(int i = 1; i < N; i++) if(!(id.r_iso_arr[i] > id.r_iso_arr[i-1])) { fprintf(out, "unsorted %d\n", i); break; }
  fprintf(out, "end\n");
  free(id.r_Schw_arr); free(id.rho_baryon_arr); free(id.rho_energy_arr); free(id.P_arr); free(id.M_arr); free(id.expnu_arr); free(id.exp4phi_arr); free(id.r_iso_arr);
  fclose(out); fclose(in);
  return 0;
}
"""
IDF = ["alpha"] + [f"betaSphorCartU{i}" for i in R] + [f"BSphorCartU{i}" for i in R] + [f"{x}SphorCartDD{i}{j}" for x in ("gamma", "K") for i in R for j in range(i, 3)] + [f"T4SphorCartUU{i}{j}" for i in R4 for j in range(i, 4)]
_STAR = {}


def star_exe():
    if "e" not in _STAR:
        import nr
        import nrpy.params as par
        import nrpy.c_function as cfc
        par.set_parval_from_str("Infrastructure", "BHaH")
        import nrpy.infrastructures.BHaH.general_relativity.TOVola.ID_persist_struct as IDps
        import nrpy.infrastructures.BHaH.general_relativity.TOVola.TOVola_interp as TI
        import nrpy.infrastructures.BHaH.general_relativity.TOVola.TOVola_solve as TS
        for n in ("TOVola_solve", "TOVola_interp"):
            cfc.CFunction_dict.pop(n, None)
        with quiet():
            TI.register_CFunction_TOVola_interp()
            TS.register_CFunction_TOVola_solve()
        d = vp.fresh_dir()
        cps = [cp for cp in par.glb_code_params_dict.values() if cp.module == "TOVola"]
        hdr = "#pragma once\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <math.h>\n#define REAL double\n"
        hdr += "#define MIN(A,B) (((A) < (B)) ? (A) : (B))\n#define MAX(A,B) (((A) > (B)) ? (A) : (B))\n"
        hdr += "typedef struct { " + " ".join(f"{'int' if cp.cparam_type == 'int' else 'REAL'} {cp.name};" for cp in cps) + " } commondata_struct;\ntypedef struct { int dummy; } params_struct;\n"
        hdr += "typedef struct { REAL " + ", ".join(IDF) + "; } initial_data_struct;\ntypedef struct {" + IDps.ID_persist_str() + "} ID_persist_struct;\n"
        files = {"BHaH_defines.h": hdr, "set_CodeParameters.h": "", "main.c": STAR_MAIN.replace("@SET@", "\n".join(f"  c.{cp.name} = {cp.defaultvalue};" for cp in cps))}
        for n in ("TOVola_solve", "TOVola_interp"):
            t = cfc.CFunction_dict[n].full_function.replace('"../', '"').replace('"gsl/gsl_errno.h"', "<gsl/gsl_errno.h>").replace('"gsl/gsl_odeiv2.h"', "<gsl/gsl_odeiv2.h>")
            files[n + ".c"] = t
        for n, t in files.items():
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        cs = [os.path.join(d, n) for n in files if n.endswith(".c")]
        r = vp.sh(["gcc", "-O2", "-fsanitize=address", "-w", "-I", d, "-o", os.path.join(d, "star")] + cs + ["-lgsl", "-lgslcblas", "-lm"])
        require(r.returncode == 0, f"generated star code does not compile: {r.stderr[:1500]}")
        _STAR["e"] = os.path.join(d, "star")
    return _STAR["e"]


def star_oracle(K, Gam, rho_c):
    """enthalpy formulation: integrates r^2, m, ln(r_iso) from the centre to h=0 exactly"""
    import numpy as np
    from scipy.integrate import solve_ivp

    def eos(h):
        y = max(np.expm1(h), 0.0)                       # Gamma/(Gamma-1) K rho^(Gamma-1)
        rho = (y * (Gam - 1) / (Gam * K)) ** (1 / (Gam - 1))
        P = K * rho ** Gam
        return rho, P, rho + P / (Gam - 1)
    hc = np.log1p(Gam / (Gam - 1) * K * rho_c ** (Gam - 1))
    _r, Pc, ec = eos(hc)
    dh = 1e-7 * hc
    r2 = 3 * dh / (2 * np.pi * (ec + 3 * Pc))
    r = np.sqrt(r2)
    m = 4 / 3 * np.pi * ec * r ** 3

    def f(s, y):                                       # s = hc - h
        r2, m, _l = y
        r = np.sqrt(r2)
        _rho, P, e = eos(hc - s)
        dr = r * (r - 2 * m) / (m + 4 * np.pi * r ** 3 * P)
        return [2 * r * dr, 4 * np.pi * e * r2 * dr, dr / (r * np.sqrt(1 - 2 * m / r))]
    S = solve_ivp(f, (dh, hc), [r2, m, np.log(r)], method="DOP853", rtol=1e-12, atol=1e-18, dense_output=True)
    if not S.success:
        raise vp.HarnessError("oracle integration failed")
    Rs, M, ls = np.sqrt(S.y[0, -1]), S.y[1, -1], S.y[2, -1]
    riso = 0.5 * (np.sqrt(Rs * (Rs - 2 * M)) + Rs - M)

    def at(x):                                          # x = r_iso / surface r_iso < 1
        from scipy.optimize import brentq
        t = ls + np.log(x)
        if S.sol(dh)[2] > t:
            h, r = hc, None
        else:
            s = brentq(lambda s: S.sol(s)[2] - t, dh, hc, xtol=1e-15, rtol=1e-14)
            h, r = hc - s, np.sqrt(S.sol(s)[0])
        rho, P, e = eos(h)
        c4 = (r / (x * riso)) ** 2 if r else (np.exp(-S.sol(dh)[2] + ls) * np.sqrt(S.sol(dh)[0]) / riso) ** 2
        return rho, P, e, (1 - 2 * M / Rs) * np.exp(-2 * h), c4
    # isotropic radius (over the surface value) where the density falls to 5% of the central one
    yt = Gam / (Gam - 1) * K * (0.05 * rho_c) ** (Gam - 1)
    return Rs, M, riso, at, float(np.exp(S.sol(hc - np.log1p(yt))[2] - ls))


def run_star(c):
    import numpy as np
    K, Gam = c["K"], c["Gamma"]
    rho_c = (c["x"] / K) ** (1 / (Gam - 1))
    Rs, M, riso, at, xt = star_oracle(K, Gam, rho_c)
    if 2 * M / Rs > 0.6:
        return None
    exe = star_exe()
    rng = random.Random(c["seed"])
    pts = []
    for _ in range(24):
        v = [rng.gauss(0, 1) for _ in R]
        n = sum(a * a for a in v) ** 0.5
        x = rng.choice([rng.uniform(0.002, 0.97), rng.uniform(0.002, 0.97), rng.uniform(1.02, 6), 10 ** rng.uniform(-3, 2)])
        if 0.97 < x < 1.02:
            x = 0.5
        if abs(v[2]) > 0.999 * n:
            continue
        pts.append([a / n * x for a in v])
    d = vp.fresh_dir()
    inp, out = os.path.join(d, "in"), os.path.join(d, "out")
    with open(inp, "w") as f:
        f.write(f"{rho_c!r} {K!r} {Gam!r} {c['sten']} {len(pts)}\n" + "\n".join(" ".join(repr(a) for a in p) for p in pts) + "\n")
    r = vp.run_exe(exe, args=[out, inp])
    tag = f"polytrope K={K} Gamma={Gam} rho_c={rho_c}"
    require(r.returncode == 0, f"{tag}: solver failed rc={r.returncode} {r.stderr.decode(errors='replace')[:800]}")
    L = open(out).read().split("\n")
    require("end" in L and not any(x.startswith("unsorted") for x in L), f"{tag}: radii not increasing or output truncated: {L[-4:]}")
    N, R1, M1, ri1 = L[0].split()
    T = 2e-5
    for nm, g, w in (("radius", R1, Rs), ("mass", M1, M), ("isotropic radius", ri1, riso)):
        require(abs(float(g) / w - 1) < T, f"{tag}: {nm} of the star is {g}, expected {w}")
    worst, pend = 0, None
    for p, line in zip(pts, L[1:]):
        v = dict(zip(IDF, map(float, line.split())))
        x = sum(a * a for a in p) ** 0.5
        rr = x * float(ri1)
        if x < 1:
            rho, P, e, en, c4 = at(x)
        else:
            rho = P = e = 0.0
            rS = rr * (1 + M / (2 * rr)) ** 2
            en, c4 = 1 - 2 * M / rS, (1 + M / (2 * rr)) ** 4
        st2 = (p[0] ** 2 + p[1] ** 2) / x ** 2
        want = {n: 0.0 for n in IDF}
        want.update(alpha=np.sqrt(en), gammaSphorCartDD00=c4, gammaSphorCartDD11=c4 * rr ** 2, gammaSphorCartDD22=c4 * rr ** 2 * st2,
                    T4SphorCartUU00=e / en, T4SphorCartUU11=P / c4, T4SphorCartUU22=P / c4 / rr ** 2, T4SphorCartUU33=P / c4 / rr ** 2 / st2)
        _r0, P0, e0, en0, c0 = at(1e-3)
        scale = {n: 0.0 for n in IDF}
        scale.update(T4SphorCartUU00=e0 / en0, T4SphorCartUU11=P0 / c0, T4SphorCartUU22=P0 / c0 / rr ** 2, T4SphorCartUU33=P0 / c0 / rr ** 2 / st2)
        for n in IDF:
            err = abs(v[n] - want[n])
            if v[n] == v[n] and err <= T * (abs(want[n]) + scale[n]) * 3:
                pass
            elif want[n] and v[n] == v[n] and 0.87 * xt < x < 1.02 * xt:
                pend = Violation(f"{tag}: {n} at r_iso = {x} R_iso is {v[n]!r}, expected {want[n]!r}", signature="TOVola-interpolation-noise-at-sampling-jump")
            else:
                raise Violation(f"{tag}: {n} at r_iso = {x} R_iso is {v[n]!r}, expected {want[n]!r}")
            if want[n]:
                worst = max(worst, err / (abs(want[n]) + scale[n]))
    if pend:
        pend.tag = "noise"
        raise pend
    return f"Gamma{'=2' if Gam == 2 else '<2' if Gam < 2 else '>2'}"


C.add("stars", star_strategy, run_star, quick=60, thorough=600, shards=4, budget=100, budget_thorough=1500, rule="a polytropic star solved and interpolated at random points inside and outside, against an enthalpy-formulation integration")

if __name__ == "__main__":
    sys.exit(C.main())
