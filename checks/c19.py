#!/usr/bin/env python3
"""C19: scalar-wave and conformally flat puncture (elliptic) equations, their exact solutions and their generated C solvers."""
import io, os, random, sys
import contextlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Violation, require

C = vp.Check("C19", assumptions=[
    "fields are random cubic polynomials of the Cartesian coordinates (symbolic part) or quadratic polynomials of the grid coordinates (generated code), for which finite differences are exact",
    "Bowen-York data: P and S are the linear and angular momenta, A_ij = (LV)_ij of the conformally flat puncture data; standard closed form as the oracle",
    "the spherical Gaussian is not evaluated at r=0 exactly except through its r0 limit",
])
R = range(3)


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def imports():
    import bhah
    import nrpy.params as par
    par.set_parval_from_str("Infrastructure", "BHaH")
    import nrpy.infrastructures.BHaH.wave_equation.wave_equation_C_codegen_library  # noqa
    import nrpy.infrastructures.BHaH.nrpyelliptic.conformally_flat_C_codegen_library  # noqa
    import nrpy.infrastructures.BHaH.general_relativity.BSSN_C_codegen_library  # noqa
    bhah.init()


# --------------------------------------------------------------------------------- symbolic right-hand sides
def cart_poly(rng):
    """random cubic in X,Y,Z: dict exponents -> coefficient"""
    import itertools
    return {m: round(rng.uniform(-1, 1), 4) for m in itertools.product(range(4), repeat=3) if sum(m) <= 3}


def lap(P, X):
    from mpmath import mpf
    t = mpf(0)
    for m, c in P.items():
        for k in R:
            if m[k] >= 2:
                e = list(m)
                e[k] -= 2
                t += mpf(c) * m[k] * (m[k] - 1) * X[0] ** e[0] * X[1] ** e[1] * X[2] ** e[2]
    return t


def field_env(P, X, name="uu"):
    """X: jets of the Cartesian coordinates in xx; returns env of value, first and second derivatives in xx"""
    from jet import Jet
    N = X[0].N
    u = Jet.const(3, N, 0)
    for m, c in P.items():
        u = u + (X[0] ** m[0]) * (X[1] ** m[1]) * (X[2] ** m[2]) * c
    env = {name: u.v}
    for i in R:
        env[f"{name}_dD{i}"] = u.d(i)
        for j in R:
            env[f"{name}_dDD{i}{j}"] = u.d(i, j)
    return env


def sym_cases(tier, rng):
    from coords import SYSTEMS
    return [dict(coord=s, pts=6 if tier == "quick" else 60, seed=rng.randint(0, 10 ** 9)) for s in SYSTEMS * (1 if tier == "quick" else 5)]


def aij(x, P, S):
    """Bowen-York A_ij of one puncture (closed form)."""
    from mpmath import mp
    r = mp.sqrt(sum(y * y for y in x))
    n = [y / r for y in x]
    Pn = sum(P[i] * n[i] for i in R)
    eps = lambda i, j, k: (i - j) * (j - k) * (k - i) / 2
    # eps_{kil} S^l n^k n_j + (i<->j), with the sign for which S is the spin: A_ij = 3/r^3 (eps_{ilk} S^l n^k n_j + ...)
    sx = [sum(eps(i, l, k) * S[l] * n[k] for l in R for k in R) for i in R]
    return [[3 / (2 * r * r) * (P[i] * n[j] + P[j] * n[i] - ((1 if i == j else 0) - n[i] * n[j]) * Pn)
             + 3 / r ** 3 * (sx[i] * n[j] + sx[j] * n[i]) for j in R] for i in R]


def divV(x, P):
    from mpmath import mp, mpf
    r = mp.sqrt(sum(y * y for y in x))
    return mpf(3) / 2 * sum(P[i] * x[i] for i in R) / r ** 3


def a2_check(got, X, q, tag, tol):
    """A_ij A^ij of two punctures on the z axis; reports the known wrong-trace form under its own signature."""
    from mpmath import mpf
    xa, xb = [X[0], X[1], X[2] - q["zPunc"]], [X[0], X[1], X[2] + q["zPunc"]]
    A0, A1 = aij(xa, q["P0"], q["S0"]), aij(xb, q["P1"], q["S1"])
    A = [[A0[i][j] + A1[i][j] for j in R] for i in R]
    want = sum(A[i][j] ** 2 for i in R for j in R)
    sc = want + sum(A0[i][j] ** 2 + A1[i][j] ** 2 for i in R for j in R)
    if abs(got - want) <= tol * sc:
        return
    # known finding: (LV)_ij formed with an inverted Kronecker delta (0 on the diagonal, 1 off it)
    d = divV(xa, q["P0"]) + divV(xb, q["P1"])
    B = [[A[i][j] + mpf(2) / 3 * d * (1 if i == j else -1) for j in R] for i in R]
    bad = sum(B[i][j] ** 2 for i in R for j in R)
    if abs(got - bad) <= tol * (sc + bad):
        raise Violation(f"{tag}: A_ij A^ij = {got} but the Bowen-York data give {want} (value of the inverted-Kronecker-delta form)", signature="bowen-york-inverted-kronecker-delta")
    raise Violation(f"{tag}: A_ij A^ij = {got} but the Bowen-York data give {want}")


def run_sym(c):
    import coords
    from mpmath import mp, mpf
    from symeval import Evaluator
    imports()
    import bhah
    bhah.start("double", 4, c["coord"])
    from nrpy.equations.wave_equation.WaveEquation_RHSs import WaveEquation_RHSs
    from nrpy.equations.wave_equation.WaveEquationCurvilinear_RHSs import WaveEquationCurvilinear_RHSs
    from nrpy.equations.nrpyelliptic.ConformallyFlat_RHSs import HyperbolicRelaxationCurvilinearRHSs
    from nrpy.equations.nrpyelliptic.ConformallyFlat_SourceTerms import compute_psi_background_and_ADD_times_AUU
    mp.dps = 30
    s = c["coord"]
    with quiet():
        cur = WaveEquationCurvilinear_RHSs(s, False)
        ell = HyperbolicRelaxationCurvilinearRHSs(s, False)
        flat = WaveEquation_RHSs() if s == "Cartesian" else None
        psi, AA = compute_psi_background_and_ADD_times_AUU(s)
    rng = random.Random(f"c19:{c['seed']}")
    pend = None
    for _ in range(c["pts"]):
        p = coords.random_params(s, rng)
        xx = [mpf(float(x)) for x in coords.random_point(s, p, rng)]
        G = coords.Geometry(s, p, xx, 2)
        X = [v.v for v in G.X]
        P = cart_poly(rng)
        u = lambda a, b: mpf(repr(round(rng.uniform(a, b), 4)))
        env = field_env(P, G.X)
        env.update({f"xx{i}": xx[i] for i in R})
        env.update({k: mpf(repr(v)) for k, v in p.items()})
        env.update(vv=u(-2, 2), wavespeed=u(0.3, 3), eta_damping=u(1, 20), variable_wavespeed=u(0.1, 4), psi_background=u(3, 5), ADD_times_AUU=u(0, 3))
        env["psi_background"] += abs(env["uu"])
        L = lap(P, X)
        sc = 1 + abs(L) + sum(abs(mpf(v)) for v in P.values()) * (1 + max(abs(y) for y in X))
        tag = f"{s} {p} xx={[mp.nstr(x, 8) for x in xx]}"
        ev = Evaluator(env)

        def eq(name, e, want, scale):
            try:
                got = ev(e)
            except KeyError as ex:
                raise Violation(f"{tag}: {name} contains {ex}")
            require(abs(got - want) <= mpf(10) ** -11 * (abs(want) + scale), f"{tag}: {name} is {mp.nstr(got, 15)}, expected {mp.nstr(want, 15)}")
        c2 = env["wavespeed"] ** 2
        for nm, w in (("curvilinear", cur), ("Cartesian", flat)):
            if w:
                eq(f"{nm} wave equation d_t u", w.uu_rhs, env["vv"], 1)
                eq(f"{nm} wave equation d_t v", w.vv_rhs, c2 * L, c2 * sc)
        src = env["ADD_times_AUU"] / 8 / (env["psi_background"] + env["uu"]) ** 7
        eq("relaxation d_t u", ell.uu_rhs, env["vv"] - env["eta_damping"] * env["uu"], 10 * sc)
        eq("relaxation residual", ell.residual, L + src, sc)
        eq("relaxation d_t v", ell.vv_rhs, env["variable_wavespeed"] ** 2 * (L + src), 16 * sc)
        require(dict(ell.NRPyElliptic_RHSs_varname_to_expr_dict) == {"uu_rhs": ell.uu_rhs, "vv_rhs": ell.vv_rhs}, f"{tag}: wrong expression dictionary")
        # puncture source terms
        zero = rng.random() < 0.3
        q = dict(m0=u(0.1, 2), m1=u(0.1, 2), zPunc=u(0.5, 6), P0=[u(-1, 1) * (0 if zero else 1) for _ in R], P1=[u(-1, 1) * (0 if zero else 1) for _ in R], S0=[u(-1, 1) for _ in R], S1=[u(-1, 1) for _ in R])
        ev = Evaluator(dict(env, **punc_env(q)))
        ra, rb = [mp.sqrt(X[0] ** 2 + X[1] ** 2 + (X[2] - z) ** 2) for z in (q["zPunc"], -q["zPunc"])]
        eq("psi_background", psi, 1 + q["m0"] / (2 * ra) + q["m1"] / (2 * rb), 1)
        try:
            a2_check(ev(AA), X, q, tag, mpf(10) ** -9)
        except Violation as v:
            if v.signature is None:
                raise
            pend = v
    if pend:
        pend.tag = s
        raise pend
    return s


def punc_env(q):
    e = dict(bare_mass_0=q["m0"], bare_mass_1=q["m1"], zPunc=q["zPunc"])
    for k in ("P0", "P1", "S0", "S1"):
        for i, x in enumerate("xyz"):
            e[f"{k}_{x}"] = q[k][i]
    return e


C.add_list("equations", sym_cases, run_sym, shards=8, budget=90, rule="one coordinate system: wave and relaxation right-hand sides, background conformal factor and Bowen-York source at random points")


# --------------------------------------------------------------------------------- exact wave solutions
def sol_strategy():
    from hypothesis import strategies as st
    f = lambda a, b: st.floats(a, b, allow_nan=False).map(lambda x: round(x, 4))
    k = st.one_of(st.sampled_from([0.0, 1.0, -1.0]), f(-3, 3))
    return st.fixed_dictionaries(dict(kind=st.sampled_from(["PlaneWave", "SphericalGaussian"]), k=st.tuples(k, k, k), sigma=f(0.3, 5), c=f(0.2, 3), t=st.one_of(st.just(0.0), f(-4, 8)),
                                      x=st.tuples(f(-6, 6), f(-6, 6), f(-6, 6))))


def run_sol(c):
    from mpmath import mp, mpf
    from jet import Jet
    from symjet import JetEvaluator
    from symeval import Evaluator
    if c["kind"] == "PlaneWave" and max(abs(x) for x in c["k"]) < 0.05:
        return None
    if c["kind"] == "SphericalGaussian" and sum(x * x for x in c["x"]) < 0.01:
        return None
    imports()
    import bhah
    bhah.start("double", 4)
    from nrpy.equations.wave_equation.WaveEquation_Solutions_InitialData import WaveEquation_solution_Cartesian
    mp.dps = 40
    W = WaveEquation_solution_Cartesian(WaveType=c["kind"], default_k0=c["k"][0], default_k1=c["k"][1], default_k2=c["k"][2], default_sigma=c["sigma"])
    import nrpy.params as par
    want = dict(zip(("kk0", "kk1", "kk2"), c["k"])) if c["kind"] == "PlaneWave" else dict(sigma=c["sigma"])
    for n, v in want.items():
        require(float(par.glb_code_params_dict[n].defaultvalue) == v, f"default of {n} is {par.glb_code_params_dict[n].defaultvalue}, asked for {v}")
    m = lambda x: mpf(repr(x))
    base = dict(kk0=m(c["k"][0]), kk1=m(c["k"][1]), kk2=m(c["k"][2]), sigma=m(c["sigma"]), wavespeed=m(c["c"]))
    v4 = [Jet.var(4, 2, i, m((list(c["x"]) + [c["t"]])[i])) for i in range(4)]
    env = dict(base, xCart0=v4[0], xCart1=v4[1], xCart2=v4[2], time=v4[3])
    ev = JetEvaluator(env)
    u = ev(W.uu_exactsoln)
    v = ev(W.vv_exactsoln)
    box = sum(u.d(i, i) for i in R) * base["wavespeed"] ** 2 - u.d(3, 3)
    sc = 1 + sum(abs(u.d(i, i)) for i in range(4)) * (1 + base["wavespeed"] ** 2)
    require(abs(box) <= mpf(10) ** -25 * sc, f"{c['kind']} {c}: not a solution of the wave equation, residual {mp.nstr(box, 8)}")
    require(abs(v.v - u.d(3)) <= mpf(10) ** -25 * sc, f"{c['kind']} {c}: vv = {mp.nstr(v.v, 12)} is not d_t uu = {mp.nstr(u.d(3), 12)}")
    if c["kind"] == "PlaneWave":
        nk = mp.sqrt(sum(m(x) ** 2 for x in c["k"]))
        want = 2 + mp.sin(sum(m(a) * m(b) for a, b in zip(c["k"], c["x"])) / nk - m(c["c"]) * m(c["t"]))
        require(abs(u.v - want) < mpf(10) ** -25, f"plane wave {c}: {mp.nstr(u.v, 12)}, expected {mp.nstr(want, 12)}")
    else:
        r, ct, s2 = mp.sqrt(sum(m(x) ** 2 for x in c["x"])), m(c["c"]) * m(c["t"]), 2 * m(c["sigma"]) ** 2
        want = 2 + (r - ct) / r * mp.exp(-(r - ct) ** 2 / s2) + (r + ct) / r * mp.exp(-(r + ct) ** 2 / s2)
        require(abs(u.v - want) < mpf(10) ** -25, f"Gaussian {c}: {mp.nstr(u.v, 12)}, expected {mp.nstr(want, 12)}")
        # limit at the origin
        z = dict(base, xCart0=mpf(0), xCart1=mpf(0), xCart2=mpf(0), time=m(c["t"]))
        e = dict(base, xCart0=mpf("1e-10"), xCart1=mpf(0), xCart2=mpf(0), time=m(c["t"]))
        for a, b, n in ((W.uu_exactsoln_r0, W.uu_exactsoln, "uu"), (W.vv_exactsoln_r0, W.vv_exactsoln, "vv")):
            A, B = Evaluator(z)(a), Evaluator(e)(b)
            require(abs(A - B) < mpf(10) ** -12 * (1 + 1 / s2 + ct ** 2) * 100, f"Gaussian {c}: {n} at the origin is {mp.nstr(A, 12)}, limit {mp.nstr(B, 12)}")
    return c["kind"] + ("+t" if c["t"] else "")


C.add("solutions", sol_strategy, run_sol, quick=160, thorough=4000, shards=4, budget=40, budget_thorough=600, rule="exact solution evaluated as a Taylor jet in (x,y,z,t) at a generic point: wave operator, time derivative, closed form, limit at the origin")

# --------------------------------------------------------------------------------- generated code
MAIN = r"""#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
static void rd(double *p, long n) { if(fread(p, 8, n, stdin) != (size_t)n) exit(4); }
static void get(REAL *q, long n) { for(long i = 0; i < n; i++) { double t; rd(&t, 1); q[i] = t; } }
static void put(const REAL *q, long n) { for(long i = 0; i < n; i++) { double t = q[i]; fwrite(&t, 8, 1, stdout); } }
int main() {
  int hd[8];
  while(fread(hd, 4, 8, stdin) == 8) {
    const int *N = hd;
    commondata_struct commondata; commondata_struct_set_to_default(&commondata);
    griddata_struct gd[1]; memset(gd, 0, sizeof(gd)); commondata.NUMGRIDS = 1; params_struct_set_to_default(&commondata, gd);
    params_struct *params = &gd[0].params;
    params->CoordSystem_hash = @HASH@;
    params->Nxx0 = N[0]; params->Nxx1 = N[1]; params->Nxx2 = N[2];
    params->Nxx_plus_2NGHOSTS0 = N[0] + 2 * NGHOSTS; params->Nxx_plus_2NGHOSTS1 = N[1] + 2 * NGHOSTS; params->Nxx_plus_2NGHOSTS2 = N[2] + 2 * NGHOSTS;
    double dx[3], x0[3], tmp; rd(dx, 3); rd(x0, 3);
    params->dxx0 = dx[0]; params->dxx1 = dx[1]; params->dxx2 = dx[2];
    params->invdxx0 = 1.0 / dx[0]; params->invdxx1 = 1.0 / dx[1]; params->invdxx2 = 1.0 / dx[2];
@SETPARAMS@
    REAL *xx[3]; const int T[3] = {params->Nxx_plus_2NGHOSTS0, params->Nxx_plus_2NGHOSTS1, params->Nxx_plus_2NGHOSTS2};
    for(int k = 0; k < 3; k++) { gd[0].xx[k] = xx[k] = malloc(sizeof(REAL) * T[k]); for(int i = 0; i < T[k]; i++) xx[k][i] = x0[k] + (i - hd[3 + k]) * dx[k]; }
    const long ntot = T[0] * T[1] * T[2];
    REAL *y = malloc(sizeof(REAL) * ntot * NUM_EVOL_GFS), *aux = malloc(sizeof(REAL) * ntot * (NUM_AUXEVOL_GFS + 1)), *rhs = malloc(sizeof(REAL) * ntot * NUM_EVOL_GFS);
    REAL *dg = malloc(sizeof(REAL) * ntot * (NUM_AUX_GFS + NUM_EVOL_GFS + 1));
    for(long i = 0; i < ntot * NUM_EVOL_GFS; i++) rhs[i] = NAN;
    for(long i = 0; i < ntot * NUM_AUX_GFS; i++) dg[i] = NAN;
    get(y, ntot * NUM_EVOL_GFS); get(aux, ntot * NUM_AUXEVOL_GFS);
    gd[0].gridfuncs.y_n_gfs = y; gd[0].gridfuncs.auxevol_gfs = aux; gd[0].gridfuncs.diagnostic_output_gfs = dg;
    double extra = 0;
@PRE0@
@BODY@
@PRE1@
    put(y, ntot * NUM_EVOL_GFS); put(aux, ntot * NUM_AUXEVOL_GFS);
    put(rhs, ntot * NUM_EVOL_GFS); put(dg, ntot * NUM_AUX_GFS); fwrite(&extra, 8, 1, stdout);
    for(int k = 0; k < 3; k++) free(xx[k]);
    free(y); free(aux); free(rhs); free(dg);
  }
  return 0;
}
"""
CD = {"wave": ["wavespeed", "sigma", "kk0", "kk1", "kk2", "KreissOliger_diss_strength", "time"],
      "elliptic": ["eta_damping", "MINIMUM_GLOBAL_WAVESPEED", "bare_mass_0", "bare_mass_1", "zPunc"] + [f"{k}_{x}" for k in ("P0", "P1", "S0", "S1") for x in "xyz"] + ["dt"]}


def code_cases(tier, rng):
    from coords import SYSTEMS
    out = []
    a, b = SYSTEMS[:], SYSTEMS[:]
    rng.shuffle(a)
    rng.shuffle(b)
    for n, s in enumerate((a[:9] if tier == "quick" else a * 6)):
        out.append(dict(eq="wave", coord=s))
    for n, s in enumerate((["Spherical", "SinhSymTP"] + b)[:10] if tier == "quick" else b * 6):
        out.append(dict(eq="elliptic", coord=s))
    for n, c in enumerate(out):
        s = c["coord"]
        pre = rng.random() < 0.6
        simd = pre and "SymTP" not in s and rng.random() < 0.6
        fp = "float" if rng.random() < 0.25 and not simd else "double"
        c.update(pre=pre, simd=simd, fp=fp, KO=rng.random() < 0.6, wt=rng.choice(["PlaneWave", "SphericalGaussian"]), fd=rng.choice([2, 4, 4, 6, 8]), collapse=rng.choice([1, 2]), threads=rng.choice([1, 3]),
                 states=3 if tier == "quick" else 12, seed=rng.randint(0, 10 ** 9))
    return out


def build(c, pnames):
    import bhah, simdlib
    imports()
    import nrpy.params as par
    import nrpy.infrastructures.BHaH.wave_equation.wave_equation_C_codegen_library as WL
    import nrpy.infrastructures.BHaH.nrpyelliptic.conformally_flat_C_codegen_library as EL
    from nrpy.infrastructures.BHaH import rfm_precompute as rp
    from nrpy.infrastructures.BHaH import numerical_grids_and_timestep as ng
    from nrpy.infrastructures.BHaH import xx_tofrom_Cart as xt
    from nrpy.infrastructures.BHaH import griddata_commondata as gc
    from nrpy.infrastructures.BHaH import BHaH_defines_h as bd
    s, pre, simd = c["coord"], c["pre"], c["simd"]
    bhah.start(c["fp"], c["fd"], s)
    for n, t, v in (("dt", "REAL", 0.1), ("time", "REAL", 0.0), ("nn", "int", 0), ("CFL_FACTOR", "REAL", 0.5)):
        if n not in par.glb_code_params_dict:
            par.register_CodeParameter(t, "t", n, v, commondata=True)
    if "NUMGRIDS" not in par.glb_code_params_dict:
        par.register_CodeParameter("int", "t", "NUMGRIDS", 1, commondata=True)
    arg = "&rfmstruct" if pre else "xx"
    with quiet():
        if pre:
            rp.register_CFunctions_rfm_precompute([s])
        xt.register_CFunction_xx_to_Cart(s)
        ng.register_CFunctions(list_of_CoordSystems=[s], list_of_grid_physical_sizes=[10.0], Nxx_dict={s: [4, 4, 4]}, enable_set_cfl_timestep=False)
        gc.register_griddata_commondata("nrpy.infrastructures.BHaH.MoLtimestepping.MoL", "MoL_gridfunctions_struct gridfuncs", "x")
        bd.register_BHaH_defines("nrpy.infrastructures.BHaH.MoLtimestepping.MoL", "typedef struct { REAL *restrict y_n_gfs; REAL *restrict auxevol_gfs; REAL *restrict diagnostic_output_gfs; } MoL_gridfunctions_struct;\n")
        if c["eq"] == "wave":
            WL.register_CFunction_exact_solution_single_Cartesian_point(WaveType=c["wt"])
            WL.register_CFunction_initial_data(OMP_collapse=c["collapse"])
            WL.register_CFunction_rhs_eval(s, pre, simd, c["KO"], c["collapse"])
            body = f"if(hd[6] == 0) rhs_eval(&commondata, params, {arg}, y, rhs); else initial_data(&commondata, gd);"
        else:
            EL.register_CFunction_initial_guess_single_point()
            EL.register_CFunction_initial_guess_all_points(OMP_collapse=c["collapse"])
            EL.register_CFunction_auxevol_gfs_single_point(s)
            EL.register_CFunction_auxevol_gfs_all_points(OMP_collapse=c["collapse"])
            EL.register_CFunction_variable_wavespeed_gfs_all_points(s)
            EL.register_CFunction_initialize_constant_auxevol()
            EL.register_CFunction_rhs_eval(s, pre, simd, c["collapse"])
            EL.register_CFunction_compute_residual_all_points(s, pre, simd, c["collapse"])
            EL.register_CFunction_compute_L2_norm_of_gridfunction(s)
            EL.register_CFunction_check_stop_conditions()
            body = f"""if(hd[6] == 0) {{ rhs_eval(&commondata, params, {arg}, aux, y, rhs); compute_residual_all_points(&commondata, params, {arg}, aux, y, dg); }}
    else if(hd[6] == 1) {{ initial_data(&commondata, gd); initialize_constant_auxevol(&commondata, gd); }}
    else if(hd[6] == 2) {{ double rr; rd(&rr, 1); extra = compute_L2_norm_of_gridfunction(&commondata, gd, rr, VVGF, y); }}
    else {{ double w[4]; rd(w, 4); commondata.nn = w[0]; commondata.nn_max = w[1]; commondata.log10_current_residual = w[2]; commondata.log10_residual_tolerance = w[3]; commondata.stop_relaxation = false;
      int so = dup(1); fflush(stdout); freopen("/dev/null", "w", stdout); check_stop_conditions(&commondata, gd); fflush(stdout); dup2(so, 1); close(so); extra = commondata.stop_relaxation; }}"""
    cd = [n for n in CD[c["eq"]] if n in par.glb_code_params_dict]
    rep = {"@HASH@": s.upper(), "@BODY@": body,
           "@SETPARAMS@": "\n".join(f"    rd(&tmp, 1); params->{n} = tmp;" for n in pnames) + "\n" + "\n".join(f"    rd(&tmp, 1); commondata.{n} = tmp;" for n in cd),
           "@PRE0@": "    rfm_struct rfmstruct; rfm_precompute_malloc(&commondata, params, &rfmstruct); rfm_precompute_defines(&commondata, params, &rfmstruct, xx);" if pre else "",
           "@PRE1@": "    rfm_precompute_free(&commondata, params, &rfmstruct);" if pre else ""}
    src = "#include <unistd.h>\n" + MAIN
    for k, v in rep.items():
        src = src.replace(k, v)
    from nrpy.grid import BHaHGridFunction
    ev, ax, ae = BHaHGridFunction.gridfunction_lists()
    flags = ["-O1", "-fopenmp", "-fsanitize=address", "-w"]
    if simd:
        flags += ["-mavx2", "-mfma"] if "avxfma" in simdlib.available() else []
    exe, d = bhah.build(src, flags=flags, simd=simd, rfm_pre=pre, upwind=c["KO"] and c["eq"] == "wave")
    return exe, list(ev), list(ax), list(ae), cd


def run_code(c):
    import numpy as np
    from mpmath import mp, mpf
    import coords, fdmodel
    from jet import Jet, monos
    mp.dps = 25
    s = c["coord"]
    pnames = coords.param_names(s)
    exe, EV, AX, AE, cdn = build(c, pnames)
    rng = random.Random(f"c19c:{c['seed']}")
    wave = c["eq"] == "wave"
    NG = c["fd"] // 2 + (1 if c["KO"] and wave else 0)
    tol = 2e-3 if c["fp"] == "float" else 1e-8
    tag0 = f"{c['eq']} {s} pre={c['pre']} simd={c['simd']} {c['fp']} fd={c['fd']}"
    rq = lambda a, b: round(rng.uniform(a, b), 4)
    pend = None
    require(sorted(EV) == ["uu", "vv"], f"{tag0}: evolved gridfunctions {EV}")
    for _ in range(c["states"]):
        p = coords.random_params(s, rng)
        xx = [mpf(float(x)) for x in coords.random_point(s, p, rng)]
        N = [8, 2, 2] if c["simd"] else [rng.choice([1, 2, 3, 4]) for _ in R]
        T = [n + 2 * NG for n in N]
        ic = [NG + rng.randrange(n) for n in N]
        lo, hi = coords.domain(s, p)
        dx = [min(rng.uniform(0.05, 0.2), 0.9 * float(min(xx[k] - lo[k], hi[k] - xx[k])) / (NG + N[k])) for k in R]
        jets = [Jet(3, 2, [mpf(repr(rq(-1, 1))) for _ in monos(3, 2)]) for _ in EV]
        off = [np.array([(i - ic[k]) * dx[k] for i in range(T[k])]) for k in R]

        def poly(j):
            A = np.zeros(T)
            for m, co in zip(monos(3, j.N), j.c):
                A += float(co) * (off[0] ** m[0])[:, None, None] * (off[1] ** m[1])[None, :, None] * (off[2] ** m[2])[None, None, :]
            return A
        y = np.stack([poly(j) for j in jets])
        nr = np.random.default_rng(rng.randint(0, 2 ** 31))
        aux = nr.uniform(0.3, 2.0, [len(AE)] + T)
        if "psi_background" in AE:
            aux[AE.index("psi_background")] += np.abs(y[EV.index("uu")]) + 0.5
        cd = dict(wavespeed=rq(0.3, 2), sigma=rq(1, 4), kk0=rq(-2, 2), kk1=rq(-2, 2), kk2=rq(0.5, 2), KreissOliger_diss_strength=0.0, time=rq(0, 2), eta_damping=rq(1, 15), MINIMUM_GLOBAL_WAVESPEED=rq(0.2, 1),
                  bare_mass_0=rq(0.1, 1), bare_mass_1=rq(0.1, 1), zPunc=rq(0.5, 5), dt=rq(0.01, 0.3))
        mom = 0.0 if rng.random() < 0.5 else 1.0
        for k in ("P0", "P1", "S0", "S1"):
            for x in "xyz":
                cd[f"{k}_{x}"] = rq(-1, 1) * (mom if k[0] == "P" else 1.0)
        tag = f"{tag0} N={N} dx={[round(v, 4) for v in dx]} xx={[mp.nstr(x, 8) for x in xx]} {p} {({k: cd[k] for k in cdn})}"

        def call(mode, Y, A, cdv, more=()):
            hd = np.array(N + ic + [mode, 0], np.int32).tobytes()
            pk = lambda Z: np.transpose(Z, (0, 3, 2, 1)).astype(np.float64).tobytes()
            r = vp.run_exe(exe, input=hd + np.array(dx + [float(x) for x in xx] + [float(p[n]) for n in pnames] + [float(cdv[n]) for n in cdn]).tobytes() + pk(Y) + pk(A) + np.array(list(more), float).tobytes(),
                           env={"OMP_NUM_THREADS": str(c["threads"])})
            require(r.returncode == 0, f"{tag}: program failed rc={r.returncode} {r.stderr.decode(errors='replace')[:1500]}")
            z = np.frombuffer(r.stdout, np.float64)
            nn = [len(EV), len(AE), len(EV), len(AX)]
            require(z.size == sum(nn) * T[0] * T[1] * T[2] + 1, f"{tag}: unexpected output size {z.size}")
            e, z = z[-1], z[:-1].reshape(sum(nn), T[2], T[1], T[0]).transpose(0, 3, 2, 1)
            o = np.cumsum([0] + nn)
            return [z[o[i]:o[i + 1]] for i in range(4)] + [e]

        def close(got, want, scale, what, t=tol):
            require(got == got and abs(got - want) <= t * (abs(want) + scale), f"{tag}: {what}: generated code gives {got!r}, expected {want!r}")
        inter = np.zeros(T, bool)
        inter[tuple(slice(NG, NG + n) for n in N)] = True
        y1, a1, rhs, dg, _e = call(0, y, aux, cd)
        if c["fp"] == "double":
            require(np.array_equal(y1, y) and np.array_equal(a1, aux), f"{tag}: evaluating the right-hand sides changed its inputs")
        require(np.isnan(rhs[:, ~inter]).all(), f"{tag}: a ghost point of the right-hand side was written")
        pts = [tuple(ic)] + [tuple(NG + rng.randrange(n) for n in N) for _ in range(2)]
        for at in pts:
            xa = [xx[k] + mpf(off[k][at[k]]) for k in R]
            G = coords.Geometry(s, p, xa, 3)
            u = jets[EV.index("uu")]
            # re-expand the quadratic at this point
            d1, d2 = [mpf(0)] * 3, [[mpf(0)] * 3 for _ in R]
            o = [mpf(off[k][at[k]]) for k in R]
            for i in R:
                for j in R:
                    d2[i][j] = u.d(i, j)
                d1[i] = u.d(i) + sum(u.d(i, j) * o[j] for j in R)
            L = sum(G.gi[i][j].v * (d2[i][j] - sum(G.Gam[k][i][j].v * d1[k] for k in R)) for i in R for j in R)
            Lsc = float(sum(abs(G.gi[i][j].v) * (abs(d2[i][j]) + sum(abs(G.Gam[k][i][j].v * d1[k]) for k in R)) for i in R for j in R))
            # round-off of the finite differences
            um = float(np.abs(y).max())
            Lsc += sum(float(G.gi[i][i].v) * um / dx[i] ** 2 * 10 for i in R)
            V, U = y[(EV.index("vv"),) + at], y[(EV.index("uu"),) + at]
            if wave:
                close(rhs[(EV.index("uu"),) + at], V, 1, f"d_t uu at {at}")
                c2 = cd["wavespeed"] ** 2
                close(rhs[(EV.index("vv"),) + at], c2 * float(L), c2 * Lsc, f"d_t vv at {at}")
            else:
                pb, A2, w = (aux[(AE.index(n),) + at] for n in ("psi_background", "ADD_times_AUU", "variable_wavespeed"))
                src = A2 / 8 / (pb + U) ** 7
                close(rhs[(EV.index("uu"),) + at], V - cd["eta_damping"] * U, 1 + cd["eta_damping"] * um, f"d_t uu at {at}")
                close(rhs[(EV.index("vv"),) + at], w * w * (float(L) + src), w * w * (Lsc + abs(src)), f"d_t vv at {at}")
                close(dg[(AX.index("residual_H"),) + at], float(L) + src, Lsc + abs(src), f"residual at {at}")
        if wave and c["KO"]:
            yn = y + nr.uniform(-0.1, 0.1, y.shape)
            sg = rq(0.1, 0.9)
            ko = call(0, yn, aux, dict(cd, KreissOliger_diss_strength=sg))[2] - call(0, yn, aux, cd)[2]
            for n in EV:
                for at in pts:
                    G = coords.Geometry(s, p, [xx[k] + mpf(off[k][at[k]]) for k in R], 2)
                    v, vs = 0.0, 0.0
                    for k in R:
                        for o, wt in fdmodel.stencil3d(f"dKOD{k}", c["fd"])[0].items():
                            t = float(wt) * yn[(EV.index(n),) + tuple(at[q] + o[q] for q in R)] / dx[k] / float(G.h[k].v)
                            v += t
                            vs += abs(t)
                    big = float(np.abs(ko[(EV.index(n),) + at])) + vs + sum(float(G.gi[i][i].v) / dx[i] ** 2 for i in R) * (1e-3 if n == "vv" else 0)
                    close(ko[(EV.index(n),) + at], sg * v, big, f"dissipation of {n} at {at} (strength {sg}, order {c['fd']})", t=max(tol, 1e-6))
        # ---- pointwise data
        y1, a1, rhs, dg, _e = call(1, np.full_like(y, 7.0), np.full_like(aux, 7.0), cd)
        for at in [tuple(rng.randrange(t) for t in T) for _ in range(4)] + pts[:1]:
            xa = [xx[k] + mpf(off[k][at[k]]) for k in R]
            G = coords.Geometry(s, p, xa, 2)
            X = [v.v for v in G.X]
            pc = 1e-3 if c["fp"] == "float" else 1e-9
            if wave:
                t, cc = mpf(cd["time"]), mpf(cd["wavespeed"])
                if c["wt"] == "PlaneWave":
                    k = [mpf(cd[f"kk{i}"]) for i in R]
                    ph = sum(k[i] * X[i] for i in R) / mp.sqrt(sum(z * z for z in k)) - cc * t
                    wu, wv = 2 + mp.sin(ph), -cc * mp.cos(ph)
                else:
                    r, s2 = mp.sqrt(sum(z * z for z in X)), 2 * mpf(cd["sigma"]) ** 2
                    f = lambda tt: 2 + sum((r + e * cc * tt) / r * mp.exp(-(r + e * cc * tt) ** 2 / s2) for e in (1, -1))
                    wu, wv = f(t), mp.diff(f, t)
                big = 1 + float(max(abs(z) for z in X)) * (1 if c["fp"] == "float" else 1)
                close(y1[(EV.index("uu"),) + at], float(wu), big, f"initial data uu at {at}", t=pc)
                close(y1[(EV.index("vv"),) + at], float(wv), big, f"initial data vv at {at}", t=pc)
            else:
                require(y1[(0,) + at] == 0 and y1[(1,) + at] == 0, f"{tag}: initial guess is not zero at {at}")
                z = mpf(cd["zPunc"])
                ra, rb = [mp.sqrt(X[0] ** 2 + X[1] ** 2 + (X[2] - w) ** 2) for w in (z, -z)]
                if min(ra, rb) < 0.05:
                    continue
                q = dict(zPunc=z, **{k: [mpf(cd[f"{k}_{x}"]) for x in "xyz"] for k in ("P0", "P1", "S0", "S1")})
                cond = float(1 + max(abs(v) for v in X) / min(ra, rb))
                close(a1[(AE.index("psi_background"),) + at], float(1 + mpf(cd["bare_mass_0"]) / (2 * ra) + mpf(cd["bare_mass_1"]) / (2 * rb)), 1, f"psi_background at {at}", t=pc * cond)
                try:
                    a2_check(mpf(a1[(AE.index("ADD_times_AUU"),) + at]), X, q, f"{tag} generated code at {at}", mpf(pc * cond * 10))
                except Violation as v:
                    if v.signature is None:
                        raise
                    pend = v
                if inter[at]:
                    ds = min(abs(float(G.h[k].v)) * dx[k] for k in R)
                    close(a1[(AE.index("variable_wavespeed"),) + at], cd["MINIMUM_GLOBAL_WAVESPEED"] * ds / cd["dt"], 0, f"variable wavespeed at {at}", t=max(1e-10, pc))
        if not wave:
            yr = nr.uniform(-2, 2, y.shape)
            num = den = 0.0
            rs = {}
            for at in zip(*np.nonzero(inter)):
                G = coords.Geometry(s, p, [xx[k] + mpf(off[k][at[k]]) for k in R], 1)
                rs[at] = (float(mp.sqrt(sum(v.v ** 2 for v in G.X))), float(mp.sqrt(G.det.v)) * dx[0] * dx[1] * dx[2])
            rad = sorted(v[0] for v in rs.values())
            cut = rng.choice([1e4, 0.5 * (rad[len(rad) // 2] + rad[-1]) + 1e-3])
            if min(abs(cut - v) / (1 + v) for v in rad) > 1e-4:
                for at, (r, dv) in rs.items():
                    if r < cut:
                        num += yr[(EV.index("vv"),) + at] ** 2 * dv
                        den += dv
                got = call(2, yr, aux, cd, [cut])[4]
                want = np.log10(1e-16 + np.sqrt(num / den))
                require(abs(got - want) < (1e-4 if c["fp"] == "float" else 1e-9), f"{tag}: log10 of the volume-weighted L2 norm inside r<{cut} is {got!r}, expected {want!r}")
            nn, nm, lr, lt = rng.choice([0, 5, 10]), rng.choice([5, 10]), rq(-3, -1), rq(-3, -1)
            got = call(3, yr, aux, cd, [nn, nm, lr, lt])[4]
            require(bool(got) == (nn >= nm or lr < lt), f"{tag}: stop condition {got} for nn={nn} nn_max={nm} residual={lr} tolerance={lt}")
    if pend:
        pend.tag = f"{c['eq']}:{s}"
        raise pend
    return f"{c['eq']}:{s}"


C.add_list("code", code_cases, run_code, shards=8, budget=240, rule="one generated solver (options drawn at random) run on random grids: right-hand sides, residual, dissipation, initial and background data, norms, stop condition")

if __name__ == "__main__":
    sys.exit(C.main())
