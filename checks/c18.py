#!/usr/bin/env python3
"""C18: exact initial data solve Einstein's equations; boosts, psi4, tetrads and mode decomposition are what they claim."""
import contextlib, io, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Violation, require

C = vp.Check("C18", assumptions=[
    "psi4 is compared in exact vacuum spacetimes (boosted, rotated Kerr and plane waves of arbitrary profile), where it equals the contracted Riemann tensor",
    "black-hole parameters with |spin| < mass, points away from punctures, horizons of the coordinates and coordinate singularities",
    "generated psi4 code is run on second-degree Taylor data, on which finite differences are exact; mode decomposition is the midpoint rule on the grid's own angles after fifth-degree (or lower with few ghosts) radial interpolation",
])
R, R4 = range(3), range(4)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def rnd(rng, a, b):
    from mpmath import mpf
    return mpf(repr(round(rng.uniform(a, b), 5)))


def close(got, want, scale, what, tol=None):
    from mpmath import mp
    got = mp.mpmathify(got)
    ok = mp.isfinite(got) and abs(got - want) <= (tol or mp.mpf(10) ** -11) * (abs(want) + scale)
    require(ok, f"{what}: NRPy gives {mp.nstr(got, 15)}, expected {mp.nstr(mp.mpmathify(want), 15)}")


def setup(cf):
    import nrpy.params as par
    import nrpy.equations.general_relativity.BSSN_quantities as q
    par.set_parval_from_str("EvolvedConformalFactor_cf", cf)
    q.BSSN_quantities.clear()


# ---------------------------------------------------------------- exact initial data
IDS = ["UIUCBlackHole", "StaticTrumpet", "OffsetKerrSchild", "BrillLindquist"]


def strat_id():
    from hypothesis import strategies as s
    return s.fixed_dictionaries(dict(id=s.sampled_from(IDS), gauge=s.booleans(), cf=s.sampled_from(["W", "chi", "phi"]), seed=s.integers(0, 10 ** 9)))


def id_params(i, rng):
    M = rnd(rng, 0.3, 3)
    if i == "UIUCBlackHole":
        return {"M": M, "chi": rnd(rng, -0.97, 0.97)}
    if i == "StaticTrumpet":
        return {"M": M}
    if i == "OffsetKerrSchild":
        return {"M": M, "a": M * rnd(rng, -0.95, 0.95), "r0": M * rnd(rng, 0.2, 1.2)}
    p = {"BH1_mass": M, "BH2_mass": rnd(rng, 0.3, 3)}
    for b in "12":
        for k in "xyz":
            p[f"BH{b}_posn_{k}"] = rnd(rng, -2, 2)
    return p


def run_id(c):
    from mpmath import mp, mpf
    mp.dps = 40
    import adm, coords
    from jet import Jet
    from symjet import JetEvaluator
    from nrpy.equations.general_relativity.InitialData_Cartesian import InitialData_Cartesian
    from nrpy.equations.general_relativity.InitialData_Spherical import InitialData_Spherical
    rng = random.Random(f"c18:{c['seed']}")
    setup(c["cf"])
    sph = c["id"] != "BrillLindquist"
    ID = quiet(InitialData_Spherical if sph else InitialData_Cartesian, c["id"], override_gauge_with_standard=c["gauge"])
    p = id_params(c["id"], rng)
    if sph:
        x = [p["M"] * rnd(rng, 0.3, 8), rnd(rng, 0.15, 3.0), rnd(rng, -3.1, 3.1)]
        names, coord = ["r", "th", "ph"], "Spherical"
    else:
        x = [rnd(rng, -4, 4) for _ in R]
        if min(sum((x[k] - p[f"BH{b}_posn_{q}"]) ** 2 for k, q in enumerate("xyz")) for b in "12") < 0.05:
            return None
        names, coord = ["x", "y", "z"], "Cartesian"
    env = dict(p)
    for k in R:
        env[names[k]] = env[f"xx{k}"] = Jet.var(3, 2, k, x[k])
    ev = JetEvaluator(env)
    J = lambda e: (lambda v: v if isinstance(v, Jet) else Jet.const(3, 2, v))(ev(e))
    g = [[J(ID.gammaDD[i][j]) for j in R] for i in R]
    K = [[J(ID.KDD[i][j]) for j in R] for i in R]
    al, be, B = J(ID.alpha), [J(b) for b in ID.betaU], [J(b) for b in ID.BU]
    tag = f"{c['id']} {({k: mp.nstr(v, 6) for k, v in p.items()})} at {[mp.nstr(y, 6) for y in x]} cf={c['cf']} standard gauge={c['gauge']}"
    for i in R:
        for j in R:
            close(g[i][j].v, g[j][i].v, 0, f"{tag}: gammaDD symmetry")
            close(K[i][j].v, K[j][i].v, 0, f"{tag}: KDD symmetry")
    gp = {"RMAX": 10} if sph else {k: v for k, v in zip(["xmin", "xmax", "ymin", "ymax", "zmin", "zmax"], [-9, 9] * 3)}
    G = coords.Geometry(coord, gp, x, 3)
    st = adm.State(G, g, K, al, be, B, [[mpf(0)] * 4 for _ in R4])
    from mpmath import matrix
    h = [q.v for q in G.h]
    m3 = [[g[i][j].v / h[i] / h[j] for j in R] for i in R]
    require(m3[0][0] > 0 and m3[0][0] * m3[1][1] - m3[0][1] ** 2 > 0 and st.det.v > 0, f"{tag}: spatial metric is not positive definite")
    H, M = st.constraints()
    # scale: size of the terms that cancel
    gi = [[st.gi[i][j].v for j in R] for i in R]
    Rs = sum(abs(gi[i][j] * st.Ric[i][j].v) for i in R for j in R)
    KK = sum(abs(gi[i][a] * gi[j][b] * K[i][j].v * K[a][b].v) for i in R for j in R for a in R for b in R)
    close(H, 0, Rs + KK + mpf(10) ** -8, f"{tag}: Hamiltonian constraint", tol=mpf(10) ** -15)
    gs = max(abs(m3[i][j]) for i in R for j in R)
    dK = sum(abs(K[i][j].d(k)) / abs(h[i] * h[j] * h[k]) + abs(K[i][j].v / h[i] / h[j]) * (1 + 1 / abs(h[k])) for i in R for j in R for k in R)
    for i in R:
        close(M[i] * h[i], 0, dK * (1 + sum(abs(gi[a][b] * h[a] * h[b]) for a in R for b in R)) ** 2 * gs + mpf(10) ** -8, f"{tag}: momentum constraint {i}", tol=mpf(10) ** -15)
    own = c["id"] in ("StaticTrumpet", "OffsetKerrSchild") and not c["gauge"]
    if own:
        gd, Kd = st.dt_metric(), st.dt_K()
        for i in R:
            for j in R:
                s = 1 / (h[i] * h[j])
                close(gd[i][j].v * s, 0, abs(al.v * K[i][j].v * s) + 1, f"{tag}: d_t gamma_{i}{j} of the stationary solution", tol=mpf(10) ** -15)
                close(Kd[i][j] * s, 0, Rs + KK + 1, f"{tag}: d_t K_{i}{j} of the stationary solution", tol=mpf(10) ** -15)
        require(al.v > 0, f"{tag}: lapse {al.v}")
    else:
        em2 = (st.det.v / G.det.v) ** (-mpf(1) / 6)
        close(al.v, em2, 0, f"{tag}: standard lapse exp(-2 phi)")
    for i in R:
        if not own:
            close(be[i].v, 0, 1, f"{tag}: standard shift {i}")
        close(B[i].v, 0, 1, f"{tag}: B^{i}")
    # asymptotics: Komar-like mass (and spin) read off far away
    big = mpf(10) ** 9
    if sph:
        env2 = dict(p, r=big, th=x[1], ph=x[2])
        mass, off = p["M"], p.get("r0", 0)
    else:
        env2 = dict(p, x=big * x[0], y=big * x[1], z=big * x[2])
        mass, off = p["BH1_mass"] + p["BH2_mass"], 0
        big = big * mp.sqrt(sum(y * y for y in x))
    ef = JetEvaluator(env2)
    if c["id"] in ("UIUCBlackHole", "BrillLindquist"):
        e = ef(ID.gammaDD[0][0])
        close((e - 1) * big, 2 * mass, mass, f"{tag}: ADM mass from the conformal factor far away", tol=mpf(10) ** -6)
    if c["id"] == "StaticTrumpet":
        close((ef(ID.gammaDD[0][0]) - 1) * big, 2 * mass, mass, f"{tag}: ADM mass far away", tol=mpf(10) ** -6)
    if c["id"] == "OffsetKerrSchild":
        close((ef(ID.gammaDD[0][0]) - 1) * big, 2 * mass, mass, f"{tag}: mass of the Kerr-Schild metric far away", tol=mpf(10) ** -6)
    if c["id"] in ("UIUCBlackHole", "OffsetKerrSchild"):
        # angular momentum: K_{r phi} -> 3 J sin^2 / r^2
        if c["id"] == "UIUCBlackHole":
            jm = p["chi"] * mass ** 2
            close(ef(ID.KDD[0][2]) * big ** 2 / mp.sin(x[1]) ** 2, 3 * jm, mass ** 2, f"{tag}: spin read from K_r_phi far away", tol=mpf(10) ** -6)
    return c["id"] + (" own gauge" if own else f" {c['cf']}")


C.add("exact_data", strat_id, run_id, quick=60, thorough=3000, shards=4, budget=50, budget_thorough=900, rule="generated point outside the excluded neighbourhood of a puncture")


# ---------------------------------------------------------------- Lorentz boosts
def strat_boost():
    from hypothesis import strategies as s
    return s.fixed_dictionaries(dict(v=s.lists(s.floats(-0.57, 0.57, allow_nan=False).map(lambda z: round(z, 4)), min_size=3, max_size=3), axis=s.sampled_from([-1, -1, -1, 0, 1, 2]),
                                     small=s.sampled_from([1.0, 1.0, 1e-3]), seed=s.integers(0, 10 ** 9)))


def run_boost(c):
    from mpmath import mp, mpf
    mp.dps = 40
    import sympy as sp
    import gr4
    from symeval import Evaluator
    from nrpy.equations.general_relativity.LorentzBoost import LorentzBoost
    rng = random.Random(c["seed"])
    v = [mpf(repr(y)) * mpf(repr(c["small"])) for y in c["v"]]
    if c["axis"] >= 0:
        v = [y if k == c["axis"] else mpf(0) for k, y in enumerate(v)]
    if not any(v):
        return None
    vs = sp.symbols("vB0:3", real=True)
    L = LorentzBoost(list(vs))
    ev = Evaluator({f"vB{k}": v[k] for k in R})
    A = [[ev(L.LorentzMatrix[m][n]) for n in R4] for m in R4]
    I = [[ev(L.InverseLorentzMatrix[m][n]) for n in R4] for m in R4]
    W = gr4.boost_matrix(v)
    tag = f"boost v={[mp.nstr(y, 6) for y in v]}"
    eta = [-1, 1, 1, 1]
    for m in R4:
        for n in R4:
            close(A[m][n], W[m][n], 1, f"{tag}: LorentzMatrix[{m}][{n}]", mpf(10) ** -25)
            close(sum(A[q][m] * eta[q] * A[q][n] for q in R4), eta[m] if m == n else 0, 1, f"{tag}: Lambda^T eta Lambda [{m}][{n}]", mpf(10) ** -25)
            close(sum(A[m][q] * I[q][n] for q in R4), 1 if m == n else 0, 1, f"{tag}: Lambda Lambda^-1 [{m}][{n}]", mpf(10) ** -25)
    L = LorentzBoost([sp.Float(mp.nstr(y, 40), 40) for y in v])
    num = lambda: rnd(rng, -2, 2)
    S = lambda x: sp.Float(mp.nstr(x, 40), 40)
    vec = [num() for _ in R4]
    cov = [num() for _ in R4]
    T2 = [[num() for _ in R4] for _ in R4]
    T3 = [[[num() for _ in R4] for _ in R4] for _ in R4]
    E = lambda t: [E(y) for y in t] if isinstance(t, list) else S(t)
    V = lambda t: [V(y) for y in t] if isinstance(t, list) else ev(t)
    bu, bi, bd = V(L.boost_vectorU(E(vec))), V(L.inverse_boost_vectorU(E(vec))), V(L.boost_vectorD(E(cov)))
    b2 = V(L.boost_tensorDD(E(T2)))
    t3 = T3 if c["seed"] % 3 == 0 else None
    Wi = gr4.boost_matrix([-y for y in v])
    for m in R4:
        close(bu[m], sum(W[m][n] * vec[n] for n in R4), 1, f"{tag}: boost_vectorU[{m}]", mpf(10) ** -20)
        close(bi[m], sum(Wi[m][n] * vec[n] for n in R4), 1, f"{tag}: inverse_boost_vectorU[{m}]", mpf(10) ** -20)
        close(bd[m], sum(Wi[n][m] * cov[n] for n in R4), 1, f"{tag}: boost_vectorD[{m}]", mpf(10) ** -20)
        for n in R4:
            close(b2[m][n], sum(Wi[a][m] * Wi[b][n] * T2[a][b] for a in R4 for b in R4), 1, f"{tag}: boost_tensorDD[{m}][{n}]", mpf(10) ** -20)
    if t3:
        b3 = V(L.boost_tensorDDD(E(T3)))
        for m in R4:
            for n in R4:
                for q in R4:
                    close(b3[m][n][q], sum(Wi[a][m] * Wi[b][n] * Wi[d][q] * T3[a][b][d] for a in R4 for b in R4 for d in R4), 1, f"{tag}: boost_tensorDDD[{m}][{n}][{q}]", mpf(10) ** -20)
    if c["seed"] % 7 == 0:
        # rank 4: product tensor, so the expectation factorises
        T4 = [[[[T2[a][b] * T2[d][e] for e in R4] for d in R4] for b in R4] for a in R4]
        b4 = V(L.boost_tensorDDDD(E(T4)))
        for m in R4:
            for n in R4:
                for q in R4:
                    for r in R4:
                        close(b4[m][n][q][r], b2[m][n] * b2[q][r], 1, f"{tag}: boost_tensorDDDD[{m}][{n}][{q}][{r}]", mpf(10) ** -9)
    return "axis" if c["axis"] >= 0 else "general"


C.add("boosts", strat_boost, run_boost, quick=30, thorough=2000, shards=2, budget=40, rule="non-zero velocity")


# ---------------------------------------------------------------- psi4 and tetrad expressions
PSI = ["Cartesian", "SinhCartesian", "Spherical", "SinhSpherical", "Cylindrical", "SinhCylindrical", "SymTP"]


def cases_psi(tier, rng):
    out = []
    order = PSI if tier == "quick" else PSI * 8
    for n, s in enumerate(order):
        out.append(dict(coord=s, pre=n % 3 == 1, cf=rng.choice(["W", "chi", "phi"]), kinds=["kerr", "wave", "kerr", "wave"] if tier == "quick" else ["kerr", "wave"] * 10, seed=rng.randint(0, 10 ** 9)))
    return out


def run_psis(c):
    n = 0
    for k, kind in enumerate(c["kinds"]):
        for a in range(4):
            if run_psi(dict(c, kind=kind, seed=c["seed"] + 10 * k + a)):
                n += 1
                break
    return f"{c['coord']}{' pre' if c['pre'] else ''} {c['cf']}" if n else None


_PSI = {}


def psi_objects(coord, pre, cf):
    import nrpy.reference_metric  # noqa
    from nrpy.equations.general_relativity.psi4 import Psi4
    from nrpy.equations.general_relativity.psi4_tetrads import Psi4Tetrads
    if _PSI.get("cf") != cf:
        setup(cf)
        _PSI.clear()
        _PSI["cf"] = cf
    if (coord, pre) not in _PSI:
        _PSI[coord, pre] = (quiet(Psi4, coord, pre), quiet(Psi4Tetrads, coord, pre) if not pre else None,
                            quiet(Psi4Tetrads, coord, pre, use_metric_to_construct_unit_normal=True) if not pre else None)
    return _PSI[coord, pre]


def vacuum_point(coord, kind, seed):
    """Random vacuum spacetime at a random grid point, as BSSN jets."""
    from mpmath import mp
    import coords, gr4
    rng = random.Random(f"psi:{seed}")
    p = coords.random_params(coord, rng)
    xx = [mp.mpf(repr(y)) for y in coords.random_point(coord, p, rng)]
    G = coords.Geometry(coord, p, xx, 3)
    V = gr4.Vacuum(seed, lambda x: coords.cart(coord, p, x), xx, kind)
    return rng, p, xx, G, V


def bssn_env(coord, pre, p, xx, G, V, cf):
    from mpmath import mp, mpf
    import adm
    b = adm.bssn(G, V.gam, V.K, cf)
    env = {"PI": +mp.pi, "M_SQRT1_2": 1 / mp.sqrt(2), "alpha": V.alpha.v}
    for i in R:
        env[f"xx{i}"] = mpf(xx[i])
        env[f"vetU{i}"] = V.beta[i].v * G.h[i].v
    env.update({k: mpf(v) for k, v in p.items()})

    def put(base, idx, j):
        env[base + idx] = j.v
        if j.N < 1:
            return
        for k in R:
            env[f"{base}_dD{idx}{k}"] = j.d(k)
            if j.N >= 2:
                for l in R:
                    env[f"{base}_dDD{idx}{k}{l}"] = j.d(k, l)
    put("trK", "", b["trK"])
    put("cf", "", b["cf"])
    for i in R:
        for j in R:
            put("hDD", f"{i}{j}", b["h"][i][j])
            put("aDD", f"{i}{j}", b["a"][i][j])
    if pre:
        import nrpy.reference_metric as rm
        from symeval import Evaluator
        rf = rm.reference_metric[coord + "_rfm_precompute"]
        ev = Evaluator(dict(env))
        for s, v in zip(rf.freevars_uniq_xx_indep, rf.freevars_uniq_vals):
            env[str(s)] = ev(v)
    return env, b


def good_vacuum(V, G):
    g = [[V.gam[i][j].v / (G.h[i].v * G.h[j].v) for j in R] for i in R]
    d = V.alpha.v
    from mpmath import mp
    return mp.im(d) == 0 and d > 0.2 and g[0][0] > 0.1 and g[0][0] * g[1][1] - g[0][1] ** 2 > 0.05 and max(abs(y) for r in g for y in r) < 20


def tetrad_oracle(V, G, xx):
    """Spatial triad (phi, r, theta) of Baker, Campanelli & Lousto: Gram-Schmidt of phi-hat, r-hat and their metric cross product."""
    from mpmath import mp
    X = [c.v for c in G.X]
    g = [[V.gam[i][j].v for j in R] for i in R]
    v1c, v2c = [-X[1], X[0], mp.mpf(0)], X
    v1 = [sum(G.Ji[i][a].v * v1c[a] for a in R) for i in R]
    v2 = [sum(G.Ji[i][a].v * v2c[a] for a in R) for i in R]
    dot = lambda a, b: sum(g[i][j] * a[i] * b[j] for i in R for j in R)
    e1 = [y / mp.sqrt(dot(v1, v1)) for y in v1]
    w = dot(e1, v2)
    e2 = [v2[i] - w * e1[i] for i in R]
    n = mp.sqrt(dot(e2, e2))
    e2 = [y / n for y in e2]
    # e3_d = sqrt(g) eps_dbc e1^b e2^c, raised
    from jet import inv3
    gi, det = inv3(g)
    sq = mp.sqrt(det)
    cr = [sq * (e1[(d + 1) % 3] * e2[(d + 2) % 3] - e1[(d + 2) % 3] * e2[(d + 1) % 3]) for d in R]
    e3 = [sum(gi[a][d] * cr[d] for d in R) for a in R]
    return e1, e2, e3


def run_psi(c):
    from mpmath import mp, mpf
    mp.dps = 40
    from symeval import Evaluator
    rng, p, xx, G, V = vacuum_point(c["coord"], c["kind"], c["seed"])
    if not good_vacuum(V, G):
        return None
    require(V.ricci < mpf(10) ** -20 * (1 + max(abs(V.Rm[a][b][d][e]) for a in R4 for b in R4 for d in R4 for e in R4)), "harness: the oracle spacetime is not vacuum")
    P, T, Tm = psi_objects(c["coord"], c["pre"], c["cf"])
    env, b = bssn_env(c["coord"], c["pre"], p, xx, G, V, c["cf"])
    tag = f"{c['coord']}{'+precompute' if c['pre'] else ''} cf={c['cf']} {c['kind']} at {[mp.nstr(y, 6) for y in xx]} {p}"
    ev = Evaluator(env)
    h = [q.v for q in G.h]
    # metric derivative quantities, by name
    names, exprs, arr = P.metric_derivs_varname_list, P.metric_derivs_expr_list, P.metric_derivs_varname_arr_list
    require(len(names) == len(exprs) == len(arr) == len(set(names)) == len(set(arr)), f"{tag}: metric derivative lists disagree")
    from adm import christoffel
    from jet import inv3
    gi, _ = inv3(V.gam)
    Gam = christoffel(V.gam, gi)
    e2 = dict(env)
    for n, x, a in zip(names, exprs, arr):
        base, idx = n.rstrip("0123"), [int(z) for z in n[len(n.rstrip("0123")):]]
        if base == "gammaDDdDD":
            i, j, k, l = idx
            want, s, w = V.gam[i][j].d(k, l), 1 / (h[i] * h[j]), f"arr_gammaDDdDD[{l + 3 * (k + 3 * (j + 3 * i))}]"
        elif base == "GammaUDD":
            i, j, k = idx
            want, s, w = Gam[i][j][k].v, h[i], f"arr_GammaUDD[{k + 3 * (j + 3 * i)}]"
        else:
            i, j, k = idx
            want, s, w = V.K[i][j].d(k), 1 / (h[i] * h[j]), f"arr_KDDdD[{k + 3 * (j + 3 * i)}]"
        close(ev(x) * s, want * s, 1, f"{tag}: {n}")
        require(a == w, f"{tag}: {n} is stored in {a}")
        e2[n] = want
    require(set(names) == {f"gammaDDdDD{i}{j}{k}{l}" for i in R for j in range(i, 3) for k in R for l in range(k, 3)}
            | {f"GammaUDD{i}{j}{k}" for i in R for j in R for k in range(j, 3)} | {f"KDDdD{i}{j}{k}" for i in R for j in range(i, 3) for k in R}, f"{tag}: metric derivative names {names}")
    # random tetrad legs (components along the normal and the coordinate directions)
    sc = [mpf(1)] + [1 / y for y in h]
    n4, re4, im4 = [[rnd(rng, -1, 1) * sc[m] for m in R4] for _ in R]
    for m in R4:
        e2[f"n4U{m}"], e2[f"mre4U{m}"], e2[f"mim4U{m}"] = n4[m], re4[m], im4[m]
    E = Evaluator(e2)
    nv, mv = V.vec(n4), [x - 1j * y for x, y in zip(V.vec(re4), V.vec(im4))]
    w = V.contract(nv, mv)
    s = sum(abs(V.Rm[a][d][a][d]) * sc[a] ** 2 * sc[d] ** 2 for a in R4 for d in R4) + abs(w) + mpf(10) ** -12
    gs = sum(abs(V.gam[i][j].d(k, k)) / abs(h[i] * h[j] * h[k] ** 2) + abs(V.gam[i][j].v / (h[i] * h[j])) for i in R for j in R for k in R)
    close(E(P.psi4_re), mp.re(w), s + gs, f"{tag}: Re psi4", mpf(10) ** -14)
    close(E(P.psi4_im), mp.im(w), s + gs, f"{tag}: Im psi4", mpf(10) ** -14)
    if T is None:
        return f"{c['kind']} {c['coord']} pre"
    # tetrad
    e1, e2v, e3 = tetrad_oracle(V, G, xx)
    r2 = 1 / mp.sqrt(2)
    for obj, metric in ((T, False), (Tm, True)):
        u = V.normal if metric else [mpf(1), 0, 0, 0]
        want = {"l4U": [r2 * (u[m] + ([0] + e2v)[m]) for m in R4], "n4U": [r2 * (u[m] - ([0] + e2v)[m]) for m in R4],
                "mre4U": [r2 * ([0] + e3)[m] for m in R4], "mim4U": [r2 * ([0] + e1)[m] for m in R4]}
        for n, v in want.items():
            got = [ev(q) for q in getattr(obj, n)]
            for m in R4:
                close(got[m] / sc[m], v[m] / sc[m], 1, f"{tag}: tetrad {n}[{m}] (unit normal from metric: {metric})")
    return f"{c['kind']} {c['coord']}"


C.add_list("psi4", cases_psi, run_psis, shards=7, budget=300, rule="at least one vacuum spacetime with a spatial slice and moderate metric at the generated point")


# ---------------------------------------------------------------- spin-weighted spherical harmonics
def wigner_Y(s, l, m, th, ph):
    """sYlm via the Wigner d-matrix sum (independent of the Goldberg form)."""
    from mpmath import mp, mpf, factorial as f
    tot = mpf(0)
    # sY_lm = (-1)^s sqrt((2l+1)/4pi) d^l_{m,-s}(th) e^{i m ph}
    mp_, k2 = m, -s
    for k in range(max(0, k2 - mp_), min(l + k2, l - mp_) + 1):
        den = f(l + k2 - k) * f(k) * f(mp_ - k2 + k) * f(l - mp_ - k)
        tot += (-1) ** (mp_ - k2 + k) * mp.sqrt(f(l + mp_) * f(l - mp_) * f(l + k2) * f(l - k2)) / den * mp.cos(th / 2) ** (2 * l + k2 - mp_ - 2 * k) * mp.sin(th / 2) ** (mp_ - k2 + 2 * k)
    return (-1) ** s * mp.sqrt((2 * l + 1) / (4 * mp.pi)) * tot * mp.expj(m * ph)


def strat_swsh():
    from hypothesis import strategies as s
    return s.integers(0, 8).flatmap(lambda l: s.fixed_dictionaries(dict(l=s.just(l), m=s.integers(-l, l), s=s.one_of(s.just(-2 if l >= 2 else 0), s.integers(-min(l, 3), min(l, 3))),
                                                                        th=s.floats(0.05, 3.09), ph=s.floats(-3.1, 3.1))))


def run_swsh(c):
    from mpmath import mp, mpf
    mp.dps = 30
    import sympy as sp
    from symeval import Evaluator
    import nrpy.equations.special_functions.spin_weighted_spherical_harmonics as W
    th, ph = sp.symbols("th ph", real=True)
    e = quiet(W.Y, c["s"], c["l"], c["m"], th, ph)
    x, y = mpf(c["th"]), mpf(c["ph"])
    got = Evaluator({"th": x, "ph": y})(e)
    want = wigner_Y(c["s"], c["l"], c["m"], x, y)
    close(got, want, 1, f"spin-weighted harmonic s={c['s']} l={c['l']} m={c['m']} at th={c['th']} ph={c['ph']}", mpf(10) ** -18)
    return f"s={c['s']}"


C.add("harmonics", strat_swsh, run_swsh, quick=60, thorough=3000, shards=2, budget=60, rule="every case")


# ---------------------------------------------------------------- generated C code: psi4, exact data, harmonics and decomposition
def start(coord, cf, fd):
    import bhah
    import nrpy.params as par
    par.set_parval_from_str("Infrastructure", "BHaH")
    import nrpy.infrastructures.BHaH.general_relativity.BSSN_C_codegen_library  # noqa
    import nrpy.infrastructures.BHaH.general_relativity.psi4_C_codegen_library  # noqa
    import nrpy.infrastructures.BHaH.special_functions.spin_weight_minus2_spherical_harmonics  # noqa
    bhah.init()
    bhah.start("double", fd, coord)
    setup(cf)
    for n, t, v in (("dt", "REAL", 0.1), ("time", "REAL", 0.0), ("nn", "int", 0), ("CFL_FACTOR", "REAL", 0.5), ("NUMGRIDS", "int", 1)):
        if n not in par.glb_code_params_dict:
            par.register_CodeParameter(t, "t", n, v, commondata=True)


def cases_pc(tier, rng):
    out = []
    order = ["Spherical", "SinhSpherical", "Cartesian", "SinhCylindrical"] if tier == "quick" else PSI * 10
    for n, s in enumerate(order):
        out.append(dict(coord=s, cf=["W", "chi", "phi", "W"][n % 4], fd=rng.choice([2, 4, 6]), fdf=rng.random() < 0.5, states=3 if tier == "quick" else 12, threads=rng.choice([1, 3]), seed=rng.randint(0, 10 ** 9)))
    return out


PMAIN = r"""#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
static void rd(double *p, long n) { if(fread(p, 8, n, stdin) != (size_t)n) exit(4); }
int main() {
  int hd[6];
  while(fread(hd, 4, 6, stdin) == 6) {
    commondata_struct commondata; commondata_struct_set_to_default(&commondata);
    griddata_struct gd[2]; commondata.NUMGRIDS = 1; params_struct_set_to_default(&commondata, gd);
    params_struct params = gd[0].params;
    params.CoordSystem_hash = @HASH@;
    params.Nxx0 = hd[0]; params.Nxx1 = hd[1]; params.Nxx2 = hd[2];
    params.Nxx_plus_2NGHOSTS0 = hd[0] + 2 * NGHOSTS; params.Nxx_plus_2NGHOSTS1 = hd[1] + 2 * NGHOSTS; params.Nxx_plus_2NGHOSTS2 = hd[2] + 2 * NGHOSTS;
    double dx[3], x0[3]; rd(dx, 3); rd(x0, 3);
    params.Cart_originx = params.Cart_originy = params.Cart_originz = 0.0;
    params.dxx0 = dx[0]; params.dxx1 = dx[1]; params.dxx2 = dx[2];
    params.invdxx0 = 1.0 / dx[0]; params.invdxx1 = 1.0 / dx[1]; params.invdxx2 = 1.0 / dx[2];
    double tmp;
@SETPARAMS@
    REAL *xx[3]; const int T[3] = {params.Nxx_plus_2NGHOSTS0, params.Nxx_plus_2NGHOSTS1, params.Nxx_plus_2NGHOSTS2};
    for(int k = 0; k < 3; k++) { xx[k] = malloc(sizeof(REAL) * T[k]); for(int i = 0; i < T[k]; i++) xx[k][i] = x0[k] + (i - hd[3 + k]) * dx[k]; }
    const long ntot = (long)T[0] * T[1] * T[2];
    REAL *y = malloc(8 * ntot * NUM_EVOL_GFS), *dg = malloc(8 * ntot * NUM_AUX_GFS);
    rd(y, ntot * NUM_EVOL_GFS);
    for(long i = 0; i < ntot * NUM_AUX_GFS; i++) dg[i] = NAN;
    psi4(&commondata, &params, xx, y, dg);
    fwrite(dg, 8, ntot * NUM_AUX_GFS, stdout);
    for(int k = 0; k < 3; k++) free(xx[k]);
    free(y); free(dg);
  }
  return 0;
}
"""


def run_pc(c):
    import numpy as np
    from mpmath import mp, mpf
    mp.dps = 30
    import bhah, coords
    from jet import monos
    s, cf = c["coord"], c["cf"]
    start(s, cf, c["fd"])
    import nrpy.infrastructures.BHaH.general_relativity.psi4_C_codegen_library as P
    from nrpy.infrastructures.BHaH import numerical_grids_and_timestep as ng
    from nrpy.equations.general_relativity.BSSN_quantities import BSSN_quantities
    with contextlib.redirect_stdout(io.StringIO()):
        _ = BSSN_quantities[s]
        ng.register_CFunctions(list_of_CoordSystems=[s], list_of_grid_physical_sizes=[10.0], Nxx_dict={s: [4, 4, 4]}, enable_set_cfl_timestep=False)
        P.register_CFunction_psi4(s, 1)
        P.register_CFunction_psi4_metric_deriv_quantities(s, c["fdf"])
        P.register_CFunction_psi4_tetrad(s)
    pn = coords.param_names(s)
    src = PMAIN.replace("@HASH@", s.upper()).replace("@SETPARAMS@", "\n".join(f"    rd(&tmp, 1); params.{n} = tmp;" for n in pn))
    from nrpy.grid import BHaHGridFunction
    EV, AX, AE = [list(z) for z in BHaHGridFunction.gridfunction_lists()]
    exe, d = bhah.build(src, flags=["-O1", "-fopenmp", "-w", "-fsanitize=address"])
    NG = c["fd"] // 2
    done = 0
    rng0 = random.Random(f"pc:{c['seed']}")
    for _ in range(c["states"] * 4):
        if done >= c["states"]:
            break
        rng, p, xx, G, V = vacuum_point(s, rng0.choice(["kerr", "kerr", "wave"]), rng0.randint(0, 10 ** 9))
        if not good_vacuum(V, G):
            continue
        done += 1
        xx = [mpf(float(x)) for x in xx]
        env, b = bssn_env(s, False, p, xx, G, V, cf)
        F = {"cf": b["cf"], "trK": b["trK"]}
        for i in R:
            for j in range(i, 3):
                F[f"hDD{i}{j}"], F[f"aDD{i}{j}"] = b["h"][i][j], b["a"][i][j]
        N = [rng.choice([1, 2, 3]) for _ in R]
        T = [n + 2 * NG for n in N]
        ic = [NG + rng.randrange(n) for n in N]
        lo, hi = coords.domain(s, p)
        dx = [min(rng.uniform(0.05, 0.2), 0.9 * float(min(xx[k] - lo[k], hi[k] - xx[k])) / (NG + N[k])) for k in R]
        off = [np.array([(i - ic[k]) * dx[k] for i in range(T[k])]) for k in R]
        y = np.random.default_rng(1).uniform(-1, 1, [len(EV)] + T)
        for n, j in F.items():
            A = np.zeros(T)
            for m, co in zip(monos(3, j.N), j.c):
                A += float(co) * (off[0] ** m[0])[:, None, None] * (off[1] ** m[1])[None, :, None] * (off[2] ** m[2])[None, None, :]
            y[EV.index(n)] = A
        inp = np.array(N + ic, np.int32).tobytes() + np.array(dx + [float(x) for x in xx] + [float(p[n]) for n in pn]).tobytes() + np.transpose(y, (0, 3, 2, 1)).astype(np.float64).tobytes()
        r = vp.run_exe(exe, input=inp, env={"OMP_NUM_THREADS": str(c["threads"])})
        tag = f"{s} cf={cf} fd={c['fd']} at {[mp.nstr(x, 8) for x in xx]} {p}"
        require(r.returncode == 0, f"{tag}: psi4 program failed rc={r.returncode} {r.stderr.decode(errors='replace')[:1200]}")
        z = np.frombuffer(r.stdout, np.float64).reshape(len(AX), T[2], T[1], T[0]).transpose(0, 3, 2, 1)
        e1, e2, e3 = tetrad_oracle(V, G, xx)
        r2 = 1 / mp.sqrt(2)
        n4 = [r2] + [-r2 * q for q in e2]
        w = V.contract(V.vec(n4), [x - 1j * q for x, q in zip(V.vec([0] + [r2 * q for q in e3]), V.vec([0] + [r2 * q for q in e1]))])
        h = [q.v for q in G.h]
        sc = float(1 + sum(abs(V.gam[i][j].d(k, l)) / abs(h[i] * h[j] * h[k] * h[l]) for i in R for j in R for k in R for l in R))
        at = tuple(ic)
        for nm, v in (("psi4_re", mp.re(w)), ("psi4_im", mp.im(w))):
            got = z[(AX.index(nm),) + at]
            require(got == got and abs(got - float(v)) <= 1e-7 * (abs(float(v)) + sc * 1e-2), f"{tag}: generated {nm} = {got!r}, curvature gives {float(v)!r}")
        inter = np.zeros(T, bool)
        inter[tuple(slice(NG, NG + n) for n in N)] = True
        require(np.isnan(z[:, ~inter]).all(), f"{tag}: psi4 wrote a ghost point")
    return f"{s} {cf}" if done else None


C.add_list("psi4_code", cases_pc, run_pc, shards=8, budget=300, rule="generated psi4 program run on at least one vacuum state")


def cases_dec(tier, rng):
    out = []
    for n in range(4 if tier == "quick" else 40):
        out.append(dict(coord=["Spherical", "SinhSpherical"][n % 2], lmax=rng.choice([2, 3, 4]), fd=rng.choice([2, 4, 6]), seed=rng.randint(0, 10 ** 9)))
    return out


DMAIN = r"""#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
static void rd(double *p, long n) { if(fread(p, 8, n, stdin) != (size_t)n) exit(4); }
int main() {
  int hd[5]; if(fread(hd, 4, 5, stdin) != 5) return 3;
  commondata_struct commondata; commondata_struct_set_to_default(&commondata);
  griddata_struct gd[2]; commondata.NUMGRIDS = 1; params_struct_set_to_default(&commondata, gd);
  params_struct params = gd[0].params;
  params.CoordSystem_hash = @HASH@; double tmp, cd[1];
  rd(cd, 1); commondata.time = cd[0]; commondata.swm2sh_maximum_l_mode_to_compute = hd[3];
@SETPARAMS@
  params.Cart_originx = params.Cart_originy = params.Cart_originz = 0.0;
  rd(&tmp, 1); params.grid_physical_size = tmp;
  const int Nx[3] = {hd[0], hd[1], hd[2]}; REAL *xx[3];
  numerical_grid_params_Nxx_dxx_xx(&commondata, &params, xx, Nx, true);
  const long ntot = (long)params.Nxx_plus_2NGHOSTS0 * params.Nxx_plus_2NGHOSTS1 * params.Nxx_plus_2NGHOSTS2;
  REAL *dg = malloc(8 * ntot * NUM_AUX_GFS); rd(dg, ntot * NUM_AUX_GFS);
  REAL *Rs = malloc(8 * hd[4]); rd(Rs, hd[4]);
  psi4_spinweightm2_decomposition_on_sphlike_grids(&commondata, &params, dg, Rs, hd[4], hd[3], xx);
  int q; double ang[2];
  while(fread(&q, 4, 1, stdin) == 1) { int m; if(fread(&m, 4, 1, stdin) != 1) return 5; rd(ang, 2); REAL a, b; spin_weight_minus2_sph_harmonics(q, m, ang[0], ang[1], &a, &b); printf("%.17g %.17g\n", (double)a, (double)b); }
  return 0;
}
"""


def run_dec(c):
    import glob
    import numpy as np
    from mpmath import mp, mpf
    mp.dps = 25
    import bhah, coords
    s = c["coord"]
    start(s, "W", c["fd"])
    import nrpy.params as par
    import nrpy.grid as gri
    import nrpy.infrastructures.BHaH.general_relativity.BSSN_C_codegen_library as L
    import nrpy.infrastructures.BHaH.special_functions.spin_weight_minus2_spherical_harmonics as H
    from nrpy.infrastructures.BHaH import numerical_grids_and_timestep as ng
    from nrpy.infrastructures.BHaH import xx_tofrom_Cart as xt
    par.set_parval_from_str("swm2sh_maximum_l_mode_generated", c["lmax"])
    with contextlib.redirect_stdout(io.StringIO()):
        gri.register_gridfunctions(["uu"], group="EVOL")
        gri.register_gridfunctions(["psi4_re", "psi4_im"], group="AUX")
        ng.register_CFunctions(list_of_CoordSystems=[s], list_of_grid_physical_sizes=[10.0], Nxx_dict={s: [4, 4, 4]}, enable_set_cfl_timestep=False)
        xt.register_CFunction__Cart_to_xx_and_nearest_i0i1i2(s)
        H.register_CFunction_spin_weight_minus2_sph_harmonics()
        L.register_CFunction_psi4_spinweightm2_decomposition_on_sphlike_grids()
    pn = [n for n in coords.param_names(s) if n.startswith("SINHW")]
    d = vp.fresh_dir()
    src = DMAIN.replace("@HASH@", s.upper()).replace("@SETPARAMS@", "\n".join(f"  rd(&tmp, 1); params.{n} = tmp;" for n in pn))
    exe, _ = bhah.build(src, flags=["-O1", "-fopenmp", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], d=d)
    rng = random.Random(f"dec:{c['seed']}")
    NG = c["fd"] // 2
    N = [rng.choice([10, 13, 16]), rng.choice([8, 10, 12]), rng.choice([8, 10, 12])]
    size = round(rng.uniform(5, 20), 3)
    P = {n: round(rng.uniform(0.3, 0.9), 3) for n in pn}
    full = {n: P.get(n, size) for n in coords.param_names(s)}
    lo, hi = coords.domain(s, full)
    dx = [(hi[k] - lo[k]) / N[k] for k in R]
    T = [n + 2 * NG for n in N]
    x = [np.array([float(lo[k] + (i - NG + mpf(1) / 2) * dx[k]) for i in range(T[k])]) for k in R]
    # radial profiles are polynomials in xx0 of the interpolation degree, so interpolation is exact
    deg = 2 * min(2, NG - 1)
    modes, coef = [(l, m) for l in range(2, c["lmax"] + 1) for m in range(-l, l + 1)], {}
    nr = np.random.default_rng(rng.randint(0, 2 ** 31))
    Y = {}
    for l, m in modes:
        Y[l, m] = np.array([[complex(wigner_Y(-2, l, m, mpf(th), mpf(ph))) for ph in x[2]] for th in x[1]])
        coef[l, m] = nr.uniform(-1, 1, deg + 1) + 1j * nr.uniform(-1, 1, deg + 1)
    x0h = float(hi[0])
    prof = {k: sum(v[q] * (x[0] / x0h) ** q for q in range(deg + 1)) for k, v in coef.items()}
    psi = sum(prof[k][:, None, None] * Y[k][None] for k in modes)
    dg = np.stack([psi.real, psi.imag])
    AX = ["psi4_re", "psi4_im"]
    from nrpy.grid import BHaHGridFunction
    AXr = list(BHaHGridFunction.gridfunction_lists()[1])
    dg = dg[[AX.index(n) for n in AXr]]
    Rs = sorted(round(rng.uniform(0.25, 0.85) * size, 2) for _ in range(2))
    lm = rng.choice(range(2, c["lmax"] + 1))
    t0 = rng.choice([0.0, round(rng.uniform(0.1, 50), 3)])
    q = [(l, m, rng.uniform(0.1, 3.0), rng.uniform(-3, 3)) for l in range(2, c["lmax"] + 1) for m in range(-l, l + 1)]
    inp = np.array(N + [lm, len(Rs)], np.int32).tobytes() + np.array([t0] + [P[n] for n in pn] + [size]).tobytes() + np.transpose(dg, (0, 3, 2, 1)).tobytes() + np.array(Rs).tobytes()
    for l, m, th, ph in q:
        inp += np.array([l, m], np.int32).tobytes() + np.array([th, ph]).tobytes()
    w = os.path.join(d, "run")
    os.makedirs(w)
    r = vp.run_exe(exe, input=inp, env={"OMP_NUM_THREADS": "2", "ASAN_OPTIONS": "detect_leaks=0"}, cwd=w)
    tag = f"{s} N={N} fd={c['fd']} size={size} {P} R_ext={Rs} l<={lm} t={t0}"
    require(r.returncode == 0, f"{tag}: decomposition failed rc={r.returncode} {r.stderr.decode(errors='replace')[:1200]}")
    for (l, m, th, ph), ln in zip(q, r.stdout.decode().split("\n")):
        a, b = map(float, ln.split())
        v = complex(wigner_Y(-2, l, m, mpf(th), mpf(ph)))
        require(abs(complex(a, b) - v) < 1e-11 * (1 + abs(v)), f"spin_weight_minus2_sph_harmonics({l},{m},{th},{ph}) = {a}+{b}i, expected {v}")
    seen = 0
    for Rx in Rs:
        # xx0 of the extraction radius
        f = lambda u: coords.radial(s, full, __import__("jet").Jet.const(3, 0, u)).v - Rx
        xr = mp.findroot(f, (mpf("0.2") * hi[0], mpf("0.8") * hi[0]), solver="secant")
        i0 = int((xr - lo[0]) / dx[0])
        if not 0 <= i0 < N[0]:
            continue
        at = psi_R = sum(complex(sum(coef[k][q] * complex(xr / hi[0]) ** q for q in range(deg + 1))) * Y[k] for k in modes)
        sl = (slice(NG, NG + N[1]), slice(NG, NG + N[2]))
        for l in range(2, c["lmax"] + 1):
            fn = os.path.join(w, f"Rpsi4_l{l}-r{Rx:06.1f}.txt")
            if l > lm:
                require(not os.path.exists(fn), f"{tag}: file for l={l} written although the maximum is {lm}")
                continue
            require(os.path.exists(fn), f"{tag}: no output for l={l} at R={Rx}: {os.listdir(w)}")
            rows = [ln.split() for ln in open(fn).read().split("\n") if ln and not ln.startswith("#")]
            head = [ln for ln in open(fn).read().split("\n") if ln.startswith("#")]
            require(len(head) == (2 * (2 * l + 1) + 1 if t0 == 0 else 0), f"{tag}: {fn} has {len(head)} header lines")
            require(len(rows) == 1 and len(rows[0]) == 1 + 2 * (2 * l + 1), f"{tag}: {fn} has rows {[len(k) for k in rows]}")
            v = [float(z) for z in rows[0]]
            require(abs(v[0] - (t0 - Rx)) <= 1e-5 * (1 + abs(t0 - Rx)), f"{tag}: retarded time {v[0]} != {t0 - Rx}")
            for k, m in enumerate(range(-l, l + 1)):
                want = Rx * (psi_R[sl] * np.conj(Y[l, m][sl]) * np.sin(x[1][NG:NG + N[1]])[:, None]).sum() * float(dx[1] * dx[2])
                got = complex(v[1 + 2 * k], v[2 + 2 * k])
                require(abs(got - want) <= 1e-8 * (abs(want) + Rx), f"{tag}: mode l={l} m={m} at R={Rx}: {got}, quadrature gives {want}")
                # and the quadrature approximates the true coefficient
                true = Rx * complex(sum(coef[l, m][q] * complex(xr / hi[0]) ** q for q in range(deg + 1)))
                require(abs(got - true) <= Rx * 40.0 / N[1] ** 2 * (1 + c["lmax"]), f"{tag}: mode l={l} m={m} at R={Rx}: {got} is far from the true coefficient {true}")
                seen += 1
    return f"{s} l<={lm}" if seen else None


C.add_list("decomposition", cases_dec, run_dec, shards=4, budget=200, rule="at least one extraction radius on the grid")


def cases_ex(tier, rng):
    return [dict(id=i, cf=rng.choice(["W", "chi", "phi"]), gauge=rng.random() < 0.5, pts=40 if tier == "quick" else 400, seed=rng.randint(0, 10 ** 9)) for i in IDS * (1 if tier == "quick" else 10)]


def run_ex(c):
    import numpy as np
    from mpmath import mp, mpf
    mp.dps = 30
    import bhah
    from symeval import Evaluator
    from nrpy.equations.general_relativity.InitialData_Cartesian import InitialData_Cartesian
    from nrpy.equations.general_relativity.InitialData_Spherical import InitialData_Spherical
    start("Spherical", c["cf"], 4)
    import nrpy.params as par
    import nrpy.infrastructures.BHaH.general_relativity.ADM_Initial_Data_Reader__BSSN_Converter as A
    sph = c["id"] != "BrillLindquist"
    ID = quiet(InitialData_Spherical if sph else InitialData_Cartesian, c["id"], override_gauge_with_standard=c["gauge"])
    with contextlib.redirect_stdout(io.StringIO()):
        A.register_CFunction_exact_ADM_ID_function("Spherical" if sph else "Cartesian", c["id"], ID.alpha, ID.betaU, ID.BU, ID.gammaDD, ID.KDD)
    from nrpy.infrastructures.BHaH import BHaH_defines_h as bd
    F = ["alpha"] + [f"betaSphorCartU{i}" for i in R] + [f"BSphorCartU{i}" for i in R] + [f"gammaSphorCartDD{i}{j}" for i in R for j in range(i, 3)] + [f"KSphorCartDD{i}{j}" for i in R for j in range(i, 3)]
    bd.register_BHaH_defines("t", "typedef struct { REAL " + ", ".join(F) + "; } initial_data_struct;\ntypedef struct { int x; } ID_persist_struct;\n")
    import nrpy.grid as gri
    gri.register_gridfunctions(["uu"], group="EVOL")
    rng = random.Random(f"ex:{c['seed']}")
    p = id_params(c["id"], rng)
    pn = sorted(p)
    main = r"""#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
int main() { commondata_struct cm; commondata_struct_set_to_default(&cm); params_struct pr; memset(&pr, 0, sizeof(pr)); ID_persist_struct ip = {0};
""" + "".join(f"  if(scanf(\"%lf\", &cm.{n}) != 1) return 3;\n" for n in pn) + r"""
  double x[3]; while(scanf("%lf %lf %lf", x, x + 1, x + 2) == 3) { initial_data_struct d; memset(&d, 0x7f, sizeof(d)); """ + f"{c['id']}(&cm, &pr, x, &ip, &d);" + "".join(f' printf("%.17g ", d.{f});' for f in F) + ' printf("\\n"); } return 0; }\n'
    exe, d = bhah.build(main, flags=["-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"])
    pts = []
    for _ in range(c["pts"]):
        while True:
            x = [rng.uniform(-6, 6) * rng.choice([1, 1, .2]) for _ in R]
            if sum(y * y for y in x) > 0.04 and x[0] ** 2 + x[1] ** 2 > 1e-4:
                break
        pts.append(x)
    fl = {n: float(p[n]) for n in pn}
    r = vp.run_exe(exe, input=("\n".join([repr(fl[n]) for n in pn] + [" ".join(map(repr, x)) for x in pts]) + "\n").encode())
    require(r.returncode == 0, f"{c['id']}: program failed rc={r.returncode} {r.stderr.decode(errors='replace')[:1200]}")
    lines = r.stdout.decode().strip().split("\n")
    require(len(lines) == len(pts), f"{c['id']}: {len(lines)} lines for {len(pts)} points")
    E = {"alpha": ID.alpha}
    for i in R:
        E[f"betaSphorCartU{i}"], E[f"BSphorCartU{i}"] = ID.betaU[i], ID.BU[i]
        for j in range(i, 3):
            E[f"gammaSphorCartDD{i}{j}"], E[f"KSphorCartDD{i}{j}"] = ID.gammaDD[i][j], ID.KDD[i][j]
    for x, ln in zip(pts, lines):
        X = [mpf(y) for y in x]
        env = {n: mpf(fl[n]) for n in pn}
        rr = mp.sqrt(sum(y * y for y in X))
        env.update(dict(r=rr, th=mp.acos(X[2] / rr), ph=mp.atan2(X[1], X[0])) if sph else dict(x=X[0], y=X[1], z=X[2]))
        env.update({f"xx{k}": env[n] for k, n in enumerate(["r", "th", "ph"] if sph else ["x", "y", "z"])})
        ev = Evaluator(env)
        for f, g in zip(F, map(float, ln.split())):
            w = float(ev(E[f]))
            require(g == g and abs(g - w) <= 1e-9 * (abs(w) + 1e-3), f"{c['id']}({fl}) at {x}: {f} = {g!r}, the initial data are {w!r}")
    return c["id"]


C.add_list("exact_code", cases_ex, run_ex, shards=4, budget=200, rule="every case")

if __name__ == "__main__":
    sys.exit(C.main())
