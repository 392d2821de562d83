#!/usr/bin/env python3
"""C16: the BSSN equations are the ADM Einstein equations in every coordinate system and option."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Violation, require

C = vp.Check("C16", assumptions=[
    "states satisfy the algebraic constraints det(gammabar)=det(gammahat), tr(Abar)=0 and Lambdabar=Delta Gamma, under which BSSN is equivalent to ADM; away from them the formulation is a free choice",
    "the momentum constraint is added to d_t Lambda with the usual factor 2 alpha and -alpha H to d_t trK; upwinded derivatives are given the same values as centred ones",
    "points away from coordinate singularities",
])
R = range(3)
SHIFTS = ["Frozen", "GammaDriving2ndOrder_NoCovariant", "GammaDriving2ndOrder_Covariant", "GammaDriving2ndOrder_Covariant__Hatted",
          "GammaDriving1stOrder_Covariant", "GammaDriving1stOrder_Covariant__Hatted", "NonAdvectingGammaDriving"]
LAPSES = ["OnePlusLog", "HarmonicSlicing", "Frozen", "OnePlusLogAlt"]
_NR = {}


def setup(cf):
    """Fresh GR caches for one conformal-factor choice (reference metrics stay cached)."""
    import nr
    import nrpy.equations.general_relativity.BSSN_quantities as q
    import nrpy.equations.general_relativity.BSSN_RHSs as r
    import nrpy.equations.general_relativity.BSSN_constraints as c
    import nrpy.equations.general_relativity.BSSN_gauge_RHSs  # noqa
    import nrpy.params as par
    if not _NR:
        nr.snapshot()
        _NR["ok"] = 1
    if _NR.get("cf") != cf:
        nr.reset()
        for d in (q.BSSN_quantities, r.BSSN_RHSs, c.BSSN_constraints):
            d.clear()
        par.set_parval_from_str("EvolvedConformalFactor_cf", cf)
        _NR["cf"] = cf


def make_env(coord, p, xx, st, b, eta, pre):
    """Values of every symbol by name."""
    from mpmath import mp, mpf
    env = {"PI": +mp.pi, "eta": mpf(eta), "SQRT1_2": 1 / mp.sqrt(2)}
    for i in R:
        env[f"xx{i}"] = mpf(xx[i])
    for k, v in p.items():
        env[k] = mpf(v)
    h = st.G.h
    vet = [st.beta[i] * h[i].trunc(2) for i in R]
    bet = [st.B[i] * h[i].trunc(2) for i in R]

    def put(base, idx, j, deg):
        env[base + idx] = j.v
        for k in R:
            env[f"{base}_dD{idx}{k}"] = env[f"{base}_dupD{idx}{k}"] = j.d(k)
            for l in R if deg >= 2 else ():
                env[f"{base}_dDD{idx}{k}{l}"] = j.d(k, l)

    for base, T, deg in (("trK", b["trK"], 1), ("cf", b["cf"], 2), ("alpha", st.alpha, 2)):
        put(base, "", T, deg)
    for base, T, deg in (("lambdaU", b["lam"], 1), ("vetU", vet, 2), ("betU", bet, 1)):
        for i in R:
            put(base, str(i), T[i], deg)
    for base, T, deg in (("hDD", b["h"], 2), ("aDD", b["a"], 1)):
        for i in R:
            for j in R:
                put(base, f"{i}{j}", T[i][j], deg)
    for m in range(4):
        for n in range(4):
            env[f"T4UU{m}{n}"] = st.T4[m][n]
    from adm import ricci
    Rb = ricci(b["Gb"])
    for i in R:
        for j in R:
            env[f"RbarDD{i}{j}"] = Rb[i][j].v
    if pre:
        import nrpy.reference_metric as rm
        from symeval import Evaluator
        rf = rm.reference_metric[coord + "_rfm_precompute"]
        ev = Evaluator(dict(env))
        for s, v in zip(rf.freevars_uniq_xx_indep, rf.freevars_uniq_vals):
            env[str(s)] = ev(v)
    return env, Rb


def close(got, want, scale, what):
    from mpmath import mp, isfinite
    got = mp.mpmathify(got)
    ok = mp.isfinite(got) and abs(got - want) <= mp.mpf(10) ** -11 * (abs(want) + scale)
    require(ok, f"{what}: NRPy gives {mp.nstr(got, 15)}, Einstein's equations give {mp.nstr(want, 15)}", signature=None)


def prepare(c, on=None):
    from mpmath import mp
    mp.dps = 40
    import coords, adm
    rng = random.Random(f"c16:{c['seed']}")
    p = coords.random_params(c["coord"], rng)
    xx = [mp.mpf(x) for x in coords.random_point(c["coord"], p, rng)]
    G = coords.Geometry(c["coord"], p, xx, 3)
    st = adm.random_state(G, c["seed"], on or c["on"])
    return p, xx, G, st


def posdef(st):
    g = [[st.g[i][j].v / (st.G.h[i].v * st.G.h[j].v) for j in R] for i in R]
    d2 = g[0][0] * g[1][1] - g[0][1] ** 2
    return g[0][0] > 0.1 and d2 > 0.05 and st.det.v / st.G.det.v > 0.02 and st.alpha.v > 0.1


def run_evol(c):
    from mpmath import mp, mpf
    import adm
    p, xx, G, st = prepare(c)
    if not posdef(st):
        return None
    coord, cf, pre = c["coord"], c["cf"], c["pre"]
    setup(cf)
    import nrpy.equations.general_relativity.BSSN_quantities as q
    import nrpy.equations.general_relativity.BSSN_RHSs as r
    import nrpy.equations.general_relativity.BSSN_constraints as k
    b = adm.bssn(G, st.g, st.K, cf)
    env, Rb = make_env(coord, p, xx, st, b, c["eta"], pre)
    from symeval import Evaluator
    ev = Evaluator(env)
    suf = ("_rfm_precompute" if pre else "") + ("_RbarDD_gridfunctions" if c["rbar"] else "")
    h = [x.v for x in G.h]
    tag = f"{coord}{suf} cf={cf} T4={c['T4']}"
    if not c["T4"]:
        st.T4 = [[mpf(0)] * 4 for _ in range(4)]
    # ---- Ricci tensor
    Q = q.BSSN_quantities[coord + ("_rfm_precompute" if pre else "")]
    for i in R:
        for j in R:
            close(ev(Q.RbarDD[i][j]) / h[i] / h[j], Rb[i][j].v / h[i] / h[j], 1, f"{tag}: RbarDD[{i}][{j}]")
        close(ev(Q.DGammaU[i]) * h[i], b["Lam"][i].v * h[i], 1, f"{tag}: DGammaU[{i}]")
    # ---- constraints
    H, M = st.constraints()
    cons = k.BSSN_constraints[coord + suf + ("_T4munu" if c["T4"] else "")]
    close(ev(cons.H), H, 1, f"{tag}: Hamiltonian constraint")
    for i in R:
        close(ev(cons.MU[i]) * h[i], M[i] * h[i], 1, f"{tag}: momentum constraint MU[{i}]")
        close(ev(cons.mU[i]), M[i] * h[i], 1, f"{tag}: rescaled momentum constraint mU[{i}]")
    # ---- evolution equations: central difference along the exact ADM flow
    dt = adm.flow(G, st, cf)
    rhs = r.BSSN_RHSs[coord + suf + ("_T4munu" if c["T4"] else "")]
    D = rhs.BSSN_RHSs_varname_to_expr_dict
    a = st.alpha.v
    close(ev(D["cf_rhs"]), dt(lambda x: x["cf"].v), 1, f"{tag}: cf_rhs")
    close(ev(D["trK_rhs"]), dt(lambda x: x["trK"].v) - a * H, 1, f"{tag}: trK_rhs")
    em4 = b["em4"].v
    for i in R:
        close(ev(D[f"lambda_rhsU{i}"]), dt(lambda x: x["lam"][i].v) + 2 * a * M[i] * h[i] / em4, 1, f"{tag}: lambda_rhsU{i}")
        for j in range(i, 3):
            close(ev(D[f"h_rhsDD{i}{j}"]), dt(lambda x: x["h"][i][j].v), 1, f"{tag}: h_rhsDD{i}{j}")
            close(ev(D[f"a_rhsDD{i}{j}"]), dt(lambda x: x["a"][i][j].v), 1, f"{tag}: a_rhsDD{i}{j}")
    require(set(D) == {"cf_rhs", "trK_rhs"} | {f"lambda_rhsU{i}" for i in R} | {f"{x}_rhsDD{i}{j}" for x in "ah" for i in R for j in range(i, 3)},
            f"{tag}: BSSN_RHSs_varname_to_expr_dict has keys {sorted(D)}")
    # ---- gauge
    gauge(c, tag, st, b, G, ev, dt, M, H, h, em4, env)
    # ---- conversions
    conversions(c, tag, st, b, G, ev, env, h)
    return f"{coord}{'+pre' if pre else ''} {cf}"


def gauge(c, tag, st, b, G, ev, dt, M, H, h, em4, env, B_adv=None):
    import adm
    import nrpy.equations.general_relativity.BSSN_gauge_RHSs as gr
    lapse, shift = c["lapse"], c["shift"]
    if lapse == "HarmonicSlicing" and c["cf"] == "chi":
        lapse = "OnePlusLog"
    args = dict(CoordSystem=c["coord"], enable_rfm_precompute=c["pre"], enable_T4munu=c["T4"], LapseEvolutionOption=lapse, ShiftEvolutionOption=shift)
    al, vet, bet = gr.BSSN_gauge_RHSs(**args)
    t = f"{tag} lapse={lapse} shift={shift}"
    w, br, Br = adm.gauge_rhs(st, b, G, dt, M, em4, lapse, shift, c["eta"], B_adv)
    close(ev(al), w, 1, f"{t}: alpha_rhs")
    for i in R:
        close(ev(vet[i]), br[i] * h[i], 1, f"{t}: vet_rhsU[{i}]")
        close(ev(bet[i]), Br[i] * h[i], 1, f"{t}: bet_rhsU[{i}]")


def conversions(c, tag, st, b, G, ev, env, h):
    from mpmath import mp, mpf
    import nrpy.indexedexp as ixp
    import nrpy.equations.general_relativity.ADM_to_BSSN as ab
    import nrpy.equations.general_relativity.BSSN_to_ADM as ba
    import nrpy.equations.general_relativity.g4munu_conversions as g4
    import nrpy.equations.general_relativity.T4munu as tm
    from symeval import Evaluator
    coord, pre, cf = c["coord"], c["pre"], c["cf"]
    # ADM -> BSSN
    e2 = dict(env)
    for i in R:
        e2[f"betaU{i}"], e2[f"BU{i}"] = st.beta[i].v, st.B[i].v
        for j in R:
            e2[f"gammaDD{i}{j}"], e2[f"KDD{i}{j}"] = st.g[i][j].v, st.K[i][j].v
    for n in list(e2):
        if n.split("U")[0] in ("lambda", "vet", "bet") or n.startswith(("hDD", "aDD", "trK", "cf")):
            del e2[n]
    A = ab.ADM_to_BSSN(ixp.declarerank2("gammaDD", symmetry="sym01"), ixp.declarerank2("KDD", symmetry="sym01"), ixp.declarerank1("betaU"),
                       ixp.declarerank1("BU"), CoordSystem=coord, enable_rfm_precompute=pre)
    E = Evaluator(e2)
    t = f"{tag}: ADM_to_BSSN"
    close(E(A.cf), b["cf"].v, 1, f"{t} cf")
    close(E(A.trK), b["trK"].v, 1, f"{t} trK")
    for i in R:
        close(E(A.vetU[i]), st.beta[i].v * h[i], 1, f"{t} vetU[{i}]")
        close(E(A.betU[i]), st.B[i].v * h[i], 1, f"{t} betU[{i}]")
        for j in R:
            close(E(A.hDD[i][j]), b["h"][i][j].v, 1, f"{t} hDD[{i}][{j}]")
            close(E(A.aDD[i][j]), b["a"][i][j].v, 1, f"{t} aDD[{i}][{j}]")
    # BSSN -> ADM, with derivatives
    Z = ba.BSSN_to_ADM(CoordSystem=coord, enable_rfm_precompute=pre)
    t = f"{tag}: BSSN_to_ADM"
    close(ev(Z.detgamma) / G.det.v, st.det.v / G.det.v, 1, f"{t} detgamma")
    for i in R:
        close(ev(Z.betaU[i]) * h[i], st.beta[i].v * h[i], 1, f"{t} betaU[{i}]")
        for j in R:
            s = 1 / (h[i] * h[j])
            close(ev(Z.gammaDD[i][j]) * s, st.g[i][j].v * s, 1, f"{t} gammaDD[{i}][{j}]")
            close(ev(Z.gammaUU[i][j]) / s, st.gi[i][j].v / s, 1, f"{t} gammaUU[{i}][{j}]")
            close(ev(Z.KDD[i][j]) * s, st.K[i][j].v * s, 1, f"{t} KDD[{i}][{j}]")
            for k in R:
                close(ev(Z.gammaDDdD[i][j][k]) * s, st.g[i][j].d(k) * s, 1, f"{t} gammaDDdD[{i}][{j}][{k}]")
                close(ev(Z.KDDdD[i][j][k]) * s, st.K[i][j].d(k) * s, 1, f"{t} KDDdD[{i}][{j}][{k}]")
                close(ev(Z.GammaUDD[i][j][k]) * h[i], st.Gam[i][j][k].v * h[i], 1, f"{t} GammaUDD[{i}][{j}][{k}]")
                for l in R:
                    close(ev(Z.gammaDDdDD[i][j][k][l]) * s, st.g[i][j].d(k, l) * s, 1, f"{t} gammaDDdDD[{i}][{j}][{k}][{l}]")
    # 4-metric
    a, be = st.alpha.v, [x.v for x in st.beta]
    g = [[st.g[i][j].v for j in R] for i in R]
    bD = [sum(g[i][j] * be[j] for j in R) for i in R]
    W = [[None] * 4 for _ in range(4)]
    W[0][0] = -a * a + sum(bD[i] * be[i] for i in R)
    for i in R:
        W[0][i + 1] = W[i + 1][0] = bD[i]
        for j in R:
            W[i + 1][j + 1] = g[i][j]
    Wi = mp.matrix(W) ** -1
    gd, gu = g4.BSSN_to_g4DD(CoordSystem=coord, enable_rfm_precompute=pre), g4.BSSN_to_g4UU(CoordSystem=coord, enable_rfm_precompute=pre)
    hh = [mpf(1)] + h
    for m in range(4):
        for n in range(4):
            s = 1 / (hh[m] * hh[n])
            close(ev(gd[m][n]) * s, W[m][n] * s, 1, f"{tag}: BSSN_to_g4DD[{m}][{n}]")
            close(ev(gu[m][n]) / s, Wi[m, n] / s, 1, f"{tag}: BSSN_to_g4UU[{m}][{n}]")
    # matter sources
    if c["T4"]:
        rho, SD, SDD, Str = st.matter()
        nSDD, nSD, nS, nrho = tm.T4UU_and_BSSN_to_SDD_SD_S_rho(CoordSystem=coord, enable_rfm_precompute=pre)
        close(ev(nrho), rho, 1, f"{tag}: rho")
        close(ev(nS), Str, 1, f"{tag}: S")
        for i in R:
            close(ev(nSD[i]) / h[i], SD[i] / h[i], 1, f"{tag}: SD[{i}]")
            for j in R:
                close(ev(nSDD[i][j]) / h[i] / h[j], SDD[i][j] / h[i] / h[j], 1, f"{tag}: SDD[{i}][{j}]")


ALL = ["h", "cf", "K", "alpha", "beta", "B", "T"]
NSH = 9


def cases(tier, rng):
    from coords import SYSTEMS
    per = 3 if tier == "quick" else 60
    order = list(SYSTEMS)
    rng.shuffle(order)
    order.append("Cartesian")
    out = []
    for half in range(2):
        grp = order[half * NSH:(half + 1) * NSH]
        pres = [rng.random() < 0.5 for _ in grp]
        for k in range(per):
            for gi, coord in enumerate(grp):
                on = list(ALL) if k < 3 or rng.random() < 0.5 else [x for x in ALL if rng.random() < 0.7]
                cfs = ["chi", "phi", "W"]
                out.append(dict(coord=coord, cf=cfs[(k + gi) % 3] if tier == "quick" else cfs[k * 3 // per], pre=(pres[gi] if tier == "quick" else bool(k * 6 // per % 2)),
                                rbar=rng.random() < 0.4, T4=rng.random() < 0.7, eta=rng.choice(["2.0", "1.25", "0.4"]),
                                lapse=rng.choice(LAPSES), shift=rng.choice(SHIFTS[1:]), on=on, seed=rng.randrange(10 ** 9)))
    return out


C.add_list("evolution", cases, run_evol, shards=NSH, budget=400, budget_thorough=5400,
           rule="positive definite random state with nonzero shift, curvature and (where enabled) stress-energy compared for every right-hand side")


# ---------------------------------------------------------------- histories of gauge choices
def strat_hist():
    from hypothesis import strategies as st
    from coords import SYSTEMS
    call = st.fixed_dictionaries(dict(coord=st.sampled_from(["Cartesian", "Cartesian", "Spherical"]), pre=st.booleans(), T4=st.booleans(),
                                      lapse=st.sampled_from(LAPSES), shift=st.sampled_from(SHIFTS)))
    return st.fixed_dictionaries(dict(cf=st.sampled_from(["W", "chi", "phi"]), calls=st.lists(call, min_size=2, max_size=5), seed=st.integers(0, 999)))


def run_hist(c):
    """The equations a call returns do not depend on the calls made before."""
    from mpmath import mp, mpf
    import adm
    _NR.pop("cf", None)
    frozen = set()
    known = None
    n = 0
    for q, call in enumerate(c["calls"]):
        cc = dict(call, cf=c["cf"], seed=c["seed"] + q, on=ALL, eta="1.5")
        p, xx, G, st = prepare(cc)
        if not posdef(st):
            continue
        setup(c["cf"])
        if not call["T4"]:
            st.T4 = [[mpf(0)] * 4 for _ in range(4)]
        b = adm.bssn(G, st.g, st.K, c["cf"])
        env, _ = make_env(cc["coord"], p, xx, st, b, cc["eta"], cc["pre"])
        from symeval import Evaluator
        H, M = st.constraints()
        gdot, Kdot = st.dt_metric(), st.dt_K()
        eps = mpf(10) ** -12
        g1, K0 = adm.trunc(st.g, 1), adm.trunc(st.K, 0)
        ser = [adm.bssn(G, [[g1[i][j] + gdot[i][j] * (s * eps) for j in R] for i in R], [[K0[i][j] + s * eps * Kdot[i][j] for j in R] for i in R], c["cf"]) for s in (1, -1)]

        def dt(f):
            return (f(ser[0]) - f(ser[1])) / (2 * eps)
        h = [x.v for x in G.h]
        tag = f"call {q} after {[(x['coord'], x['pre'], x['shift']) for x in c['calls'][:q]]}: {cc['coord']} pre={cc['pre']}"
        args = (cc, tag, st, b, G, Evaluator(env), dt, M, H, h, b["em4"].v, env)
        key = (cc["coord"], cc["pre"])
        try:
            gauge(*args)
        except Violation:
            # known finding: a Frozen-shift call zeroes the cached B^i of that coordinate system
            if key not in frozen:
                raise
            st0 = adm.State(G, st.g, st.K, st.alpha, st.beta, [x * 0 for x in st.B], st.T4)
            bet = [st.B[i] for i in R]
            gauge(*(args[:2] + (st0,) + args[3:]), B_adv=bet)
            known = f"{tag}: B^i missing"
        n += 1
        if call["shift"] == "Frozen":
            frozen.add(key)
    if known:
        raise Violation(known, signature="frozen-shift-call-clears-cached-B")
    return n > 1 and f"{len(c['calls'])} calls"


C.add("histories", strat_hist, run_hist, quick=9, thorough=200, shards=3, budget=30, rule="at least two gauge calls in one process compared with the equations")


# ---------------------------------------------------------------- 4-metric -> 3+1
def strat_g4():
    from hypothesis import strategies as st
    from coords import SYSTEMS
    return st.fixed_dictionaries(dict(coord=st.sampled_from(["Cartesian", "Spherical", "SinhCartesian", "Cylindrical", "SinhSpherical"]), cf=st.sampled_from(["W", "chi", "phi"]),
                                      pre=st.booleans(), seed=st.integers(0, 10 ** 6), on=st.sampled_from([ALL, ["h"], ["alpha"], ["beta"], ["h", "beta", "alpha"]])))


def run_g4(c):
    from mpmath import mp, mpf
    import adm
    import nrpy.equations.general_relativity.g4munu_conversions as g4
    p, xx, G, st = prepare(c)
    if not posdef(st):
        return None
    setup(c["cf"])
    b = adm.bssn(G, st.g, st.K, c["cf"])
    env, _ = make_env(c["coord"], p, xx, st, b, "2.0", c["pre"])
    h = [x.v for x in G.h]
    a, be, g = st.alpha.v, [x.v for x in st.beta], [[st.g[i][j].v for j in R] for i in R]
    bD = [sum(g[i][j] * be[j] for j in R) for i in R]
    W = [[-a * a + sum(bD[i] * be[i] for i in R)] + bD] + [[bD[i]] + g[i] for i in R]
    e = {k: v for k, v in env.items() if k.startswith(("xx", "f")) or k in p or k in ("PI", "SQRT1_2")}
    for m in range(4):
        for n in range(4):
            e[f"g4DD{m}{n}"] = W[m][n]
    from symeval import Evaluator
    ev = Evaluator(e)
    gam, al, bu = g4.g4DD_to_ADM()
    hDD, cf, vet, al2 = g4.g4DD_to_BSSN(CoordSystem=c["coord"], enable_rfm_precompute=c["pre"])
    tag = f"{c['coord']} cf={c['cf']}"
    for i in R:
        for j in R:
            close(ev(gam[i][j]), g[i][j], 1, f"{tag}: g4DD_to_ADM gammaDD[{i}][{j}]")
            close(ev(hDD[i][j]), b["h"][i][j].v, 1, f"{tag}: g4DD_to_BSSN hDD[{i}][{j}]")
    close(ev(cf), b["cf"].v, 1, f"{tag}: g4DD_to_BSSN cf")

    def rest(beta, alpha):
        for i in R:
            close(ev(bu[i]) * h[i], beta[i] * h[i], 1, f"{tag}: g4DD_to_ADM betaU[{i}]")
            close(ev(vet[i]), beta[i] * h[i], 1, f"{tag}: g4DD_to_BSSN vetU[{i}]")
        close(ev(al), alpha, 1, f"{tag}: g4DD_to_ADM alpha")
        close(ev(al2), alpha, 1, f"{tag}: g4DD_to_BSSN alpha")
    try:
        rest(be, a)
    except Violation as ex:
        # known finding: beta_i is read from g_{0,i} instead of g_{0,i+1}
        gi = [[st.gi[i][j].v for j in R] for i in R]
        bad = [W[0][i] for i in R]
        bu2 = [sum(gi[i][j] * bad[j] for j in R) for i in R]
        rest(bu2, mp.sqrt(sum(bu2[i] * bad[i] for i in R) - W[0][0]))
        raise Violation(str(ex), signature="g4DD_to_ADM-shift-index-off-by-one")
    return "g4"


C.add("four_metric", strat_g4, run_g4, quick=25, thorough=1500, shards=1, budget=40, rule="random positive definite state converted from its 4-metric")


# ---------------------------------------------------------------- asymptotic values and wave speeds
def cases_inf(tier, rng):
    return [dict(cf=cf, coord=c) for cf in ("W", "chi", "phi") for c in ("Cartesian", "Spherical")]


def run_inf(c):
    """Flat space is the asymptotic state of every evolved variable, and a fixed point of the equations."""
    from mpmath import mp
    import nr
    import nrpy.grid as gri
    _NR.pop("cf", None)
    setup(c["cf"])
    import nrpy.equations.general_relativity.BSSN_quantities as q
    import nrpy.params as par
    nr.reset("BHaH")
    q.BSSN_quantities.clear()
    par.set_parval_from_str("EvolvedConformalFactor_cf", c["cf"])
    _ = q.BSSN_quantities[c["coord"]]
    _NR.pop("cf", None)
    want = {n: g for n, g in gri.glb_gridfcs_dict.items() if g.group == "EVOL"}
    exp = {"alpha": 1.0, "trK": 0.0, "cf": 0.0 if c["cf"] == "phi" else 1.0}
    names = set(exp) | {f"{x}DD{i}{j}" for x in "ah" for i in R for j in range(i, 3)} | {f"{x}U{i}" for x in ("lambda", "vet", "bet") for i in R}
    require(set(want) == names, f"cf={c['cf']}: evolved gridfunctions are {sorted(want)}")
    for n, g in want.items():
        require(float(g.f_infinity) == exp.get(n, 0.0), f"cf={c['cf']}: gridfunction {n} is given the asymptotic value {g.f_infinity}, flat space has {exp.get(n, 0.0)}")
        w = mp.sqrt(2) if n == "alpha" else 1
        require(abs(float(g.wavespeed) - w) < 1e-12, f"gridfunction {n} has wave speed {g.wavespeed}")
    return "inf"


C.add_list("asymptotics", cases_inf, run_inf, shards=1, budget=60, rule="registered gridfunctions read back")

if __name__ == "__main__":
    sys.exit(C.main())
