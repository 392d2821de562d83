#!/usr/bin/env python3
"""C17: the generated C code of the BSSN solver evaluates Einstein's equations on grid data."""
import io, os, random, sys
import contextlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Violation, require

C = vp.Check("C17", assumptions=[
    "grid data are second-degree Taylor polynomials of a random ADM state about one interior point, on which every finite-difference stencil is exact; the state satisfies the algebraic BSSN constraints there",
    "rough (random) data are used for dissipation, upwinding, damping and the determinant rescaling, whose contributions are separated by differences of runs",
    "momentum constraint added to d_t Lambda with factor 2 alpha, -alpha H to d_t trK (as in C16)",
])
R = range(3)
SHIFTS = ["Frozen", "GammaDriving2ndOrder_NoCovariant", "GammaDriving2ndOrder_Covariant", "GammaDriving2ndOrder_Covariant__Hatted",
          "GammaDriving1stOrder_Covariant", "GammaDriving1stOrder_Covariant__Hatted", "NonAdvectingGammaDriving"]
LAPSES = ["OnePlusLog", "OnePlusLog", "HarmonicSlicing", "Frozen", "OnePlusLogAlt"]
EVOL = ["alpha", "cf", "trK"] + [f"{v}{i}" for v in ("vetU", "betU", "lambdaU") for i in R] + [f"{v}{i}{j}" for v in ("hDD", "aDD") for i in R for j in range(i, 3)]
GAUGE = {"alpha"} | {f"{v}{i}" for v in ("vetU", "betU") for i in R}


def clear(cf):
    import nrpy.equations.general_relativity.BSSN_quantities as q
    import nrpy.equations.general_relativity.BSSN_RHSs as r
    import nrpy.equations.general_relativity.BSSN_constraints as c
    import nrpy.params as par
    for d in (q.BSSN_quantities, r.BSSN_RHSs, c.BSSN_constraints):
        d.clear()
    par.set_parval_from_str("EvolvedConformalFactor_cf", cf)


def imports():
    import bhah
    import nrpy.params as par
    par.set_parval_from_str("Infrastructure", "BHaH")
    import nrpy.infrastructures.BHaH.general_relativity.BSSN_C_codegen_library  # noqa
    import nrpy.infrastructures.BHaH.general_relativity.psi4_C_codegen_library  # noqa
    bhah.init()


def cases(tier, rng):
    from coords import SYSTEMS
    cheap = ["Cartesian", "Spherical", "Cylindrical", "SinhCartesian"]
    out = []
    order = SYSTEMS[:]
    rng.shuffle(order)
    if tier == "quick":
        order = ["Cartesian", "SinhCylindrical", "SinhSpherical"] + [s for s in order if s not in ("Cartesian", "SinhCylindrical", "SinhSpherical")]
        todo = order[:14] + ["Spherical", "Cartesian"]
    else:
        todo = order * 8
    for n, s in enumerate(todo):
        pre = rng.random() < 0.75 or s not in cheap
        rbar = rng.random() < 0.7 or s not in cheap
        cf = ["W", "chi", "phi", "W"][n % 4] if n > 2 else ["W", "phi", "chi"][n]
        simd = cf == "W" and "SymTP" not in s and (pre or s == "Cartesian") and rng.random() < 0.7
        lapse, shift = rng.choice(LAPSES), rng.choice(SHIFTS)
        if lapse == "HarmonicSlicing" and cf == "chi":
            lapse = "OnePlusLog"
        out.append(dict(coord=s, pre=pre, rbar=rbar, cf=cf, simd=simd, T4=rng.random() < 0.6, fdf=rng.random() < 0.4, fd=rng.choice([2, 2, 4, 4, 6]),
                        lapse=lapse, shift=shift, KO=rng.random() < 0.8, CAKO=rng.random() < 0.5, CAHD=rng.random() < 0.5, SSL=rng.random() < 0.5,
                        collapse=rng.choice([1, 2]), threads=rng.choice([1, 3]), states=2 if tier == "quick" else 6, seed=rng.randint(0, 10 ** 9)))
    return out


MAIN = r"""#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
static double *buf;
static void rd(double *p, long n) { if(fread(p, 8, n, stdin) != (size_t)n) exit(4); }
int main() {
  int hd[8];
  while(fread(hd, 4, 8, stdin) == 8) {
    const int *N = hd;
    commondata_struct commondata; commondata_struct_set_to_default(&commondata);
    griddata_struct gd[2]; commondata.NUMGRIDS = 1; params_struct_set_to_default(&commondata, gd);
    params_struct params = gd[0].params;
    params.CoordSystem_hash = @HASH@;
    params.Nxx0 = N[0]; params.Nxx1 = N[1]; params.Nxx2 = N[2];
    params.Nxx_plus_2NGHOSTS0 = N[0] + 2 * NGHOSTS; params.Nxx_plus_2NGHOSTS1 = N[1] + 2 * NGHOSTS; params.Nxx_plus_2NGHOSTS2 = N[2] + 2 * NGHOSTS;
    double dx[3], x0[3], cd[8]; rd(dx, 3); rd(x0, 3); rd(cd, 8);
    params.dxx0 = dx[0]; params.dxx1 = dx[1]; params.dxx2 = dx[2];
    params.invdxx0 = 1.0 / dx[0]; params.invdxx1 = 1.0 / dx[1]; params.invdxx2 = 1.0 / dx[2];
    double tmp;
@SETPARAMS@
    REAL *xx[3]; const int T[3] = {params.Nxx_plus_2NGHOSTS0, params.Nxx_plus_2NGHOSTS1, params.Nxx_plus_2NGHOSTS2};
    for(int k = 0; k < 3; k++) { xx[k] = malloc(sizeof(REAL) * T[k]); for(int i = 0; i < T[k]; i++) xx[k][i] = x0[k] + (i - hd[3 + k]) * dx[k]; }
    const int ntot = T[0] * T[1] * T[2];
    REAL *y = malloc(sizeof(REAL) * ntot * NUM_EVOL_GFS), *aux = malloc(sizeof(REAL) * ntot * (NUM_AUXEVOL_GFS + 1)), *rhs = malloc(sizeof(REAL) * ntot * NUM_EVOL_GFS);
    REAL *dg = malloc(sizeof(REAL) * ntot * (NUM_AUX_GFS + 1));
    for(int i = 0; i < ntot * NUM_EVOL_GFS; i++) rhs[i] = NAN;
    for(int i = 0; i < ntot * NUM_AUX_GFS; i++) dg[i] = NAN;
    rd(y, (long)ntot * NUM_EVOL_GFS); rd(aux, (long)ntot * NUM_AUXEVOL_GFS);
@PRE0@
    if(hd[6] == 0) {
@RICCI@
      @COMMON@
      rhs_eval(&commondata, &params, @ARG@, aux, y, rhs);
      constraints_eval(&commondata, &params, @ARG@, y, aux, dg);
    } else if(hd[6] == 1) {
      enforce_detgammabar_equals_detgammahat(&commondata, &params, @ARG@, y);
      @CAHD@
    }
@PRE1@
    fwrite(y, 8, (long)ntot * NUM_EVOL_GFS, stdout); fwrite(aux, 8, (long)ntot * NUM_AUXEVOL_GFS, stdout);
    fwrite(rhs, 8, (long)ntot * NUM_EVOL_GFS, stdout); fwrite(dg, 8, (long)ntot * NUM_AUX_GFS, stdout);
    for(int k = 0; k < 3; k++) free(xx[k]);
    free(y); free(aux); free(rhs); free(dg);
  }
  return 0;
}
"""


def build(c, pnames):
    import bhah, simdlib
    imports()
    import nrpy.params as par
    import nrpy.infrastructures.BHaH.general_relativity.BSSN_C_codegen_library as L
    from nrpy.infrastructures.BHaH import rfm_precompute as rp
    from nrpy.infrastructures.BHaH import numerical_grids_and_timestep as ng
    bhah.start("double", c["fd"], c["coord"])
    clear(c["cf"])
    s, pre, simd, fdf = c["coord"], c["pre"], c["simd"], c["fdf"]
    for n, t, v in (("dt", "REAL", 0.1), ("time", "REAL", 0.0), ("nn", "int", 0), ("CFL_FACTOR", "REAL", 0.5)):
        if n not in par.glb_code_params_dict:
            par.register_CodeParameter(t, "t", n, v, commondata=True)
    if "NUMGRIDS" not in par.glb_code_params_dict:
        par.register_CodeParameter("int", "t", "NUMGRIDS", 1, commondata=True)
    with contextlib.redirect_stdout(io.StringIO()):
        if pre:
            rp.register_CFunctions_rfm_precompute([s])
        ng.register_CFunctions(list_of_CoordSystems=[s], list_of_grid_physical_sizes=[10.0], Nxx_dict={s: [4, 4, 4]}, enable_set_cfl_timestep=False)
        L.register_CFunction_rhs_eval(s, pre, c["rbar"], c["T4"], simd, fdf, c["lapse"], c["shift"], c["KO"], KreissOliger_strength_gauge=0.25, KreissOliger_strength_nongauge=0.125,
                                      enable_CAKO=c["CAKO"], enable_CAHD=c["CAHD"], enable_SSL=c["SSL"], OMP_collapse=c["collapse"])
        if c["rbar"]:
            L.register_CFunction_Ricci_eval(s, pre, simd, fdf, c["collapse"])
        L.register_CFunction_constraints(s, pre, c["rbar"], c["T4"], simd, fdf, c["collapse"])
        L.register_CFunction_enforce_detgammabar_equals_detgammahat(s, pre, fdf, c["collapse"])
        if c["CAHD"]:
            L.register_CFunction_cahdprefactor_auxevol_gridfunction([s])
    arg = "&rfmstruct" if pre else "xx"
    com = "commondata.eta = cd[0];\n" if "eta" in par.glb_code_params_dict else ""
    if c["KO"]:
        com += "commondata.KreissOliger_strength_gauge = cd[1]; commondata.KreissOliger_strength_nongauge = cd[2];\n"
    if c["SSL"]:
        com += "commondata.SSL_Gaussian_prefactor = cd[3];\n"
    rep = {
        "@HASH@": s.upper(), "@ARG@": arg, "@COMMON@": com,
        "@SETPARAMS@": "\n".join(f"    rd(&tmp, 1); params.{n} = tmp;" for n in pnames),
        "@PRE0@": "    rfm_struct rfmstruct; rfm_precompute_malloc(&commondata, &params, &rfmstruct); rfm_precompute_defines(&commondata, &params, &rfmstruct, xx);" if pre else "",
        "@PRE1@": "    rfm_precompute_free(&commondata, &params, &rfmstruct);" if pre else "",
        "@RICCI@": f"      Ricci_eval(&commondata, &params, {arg}, y, aux);" if c["rbar"] else "",
        "@CAHD@": "commondata.C_CAHD = cd[4]; commondata.CFL_FACTOR = cd[5]; cahdprefactor_auxevol_gridfunction(&commondata, &params, xx, aux);" if c["CAHD"] else "",
    }
    src = MAIN
    for k in ("@COMMON@", "@CAHD@", "@RICCI@", "@PRE0@", "@PRE1@", "@SETPARAMS@", "@ARG@", "@HASH@"):
        src = src.replace(k, rep[k])
    from nrpy.grid import BHaHGridFunction
    ev, ax, ae = BHaHGridFunction.gridfunction_lists()
    flags = ["-O1", "-fopenmp", "-fsanitize=address", "-w"]
    if simd:
        av = simdlib.available()
        flags += ["-mavx2", "-mfma"] if "avxfma" in av else []
    exe, d = bhah.build(src, flags=flags, upwind=True, simd=simd, rfm_pre=pre)
    return exe, list(ev), list(ax), list(ae)


def close(got, want, scale, what, tol=1e-7):
    ok = got == got and abs(got - want) <= tol * (abs(want) + scale)
    require(ok, f"{what}: generated C code gives {got!r}, expected {want!r}")


def run(c):
    import numpy as np
    from mpmath import mp, mpf
    import adm, coords
    from jet import monos
    import fdmodel
    mp.dps = 30
    s, cf = c["coord"], c["cf"]
    pnames = [n for n in coords.param_names(s)]
    exe, EV, AX, AE = build(c, pnames)
    require(sorted(EV) == sorted(EVOL), f"{s}: evolved gridfunctions are {EV}")
    rng = random.Random(f"c17:{c['seed']}")
    NG = c["fd"] // 2 + 1
    tag0 = f"{s} cf={cf} pre={c['pre']} Rbar={c['rbar']} simd={c['simd']} T4={c['T4']} {c['lapse']} {c['shift']} KO={c['KO']} CAKO={c['CAKO']} CAHD={c['CAHD']} SSL={c['SSL']} fd={c['fd']}"
    done = 0
    for _ in range(c["states"] * 3):
        if done >= c["states"]:
            break
        p = coords.random_params(s, rng)
        xx = [mpf(float(x)) for x in coords.random_point(s, p, rng)]
        G = coords.Geometry(s, p, xx, 3)
        st = adm.random_state(G, rng.randint(0, 10 ** 9), ["h", "K", "alpha", "beta", "B", "T", "cf"])
        g = [[st.g[i][j].v / (st.G.h[i].v * st.G.h[j].v) for j in R] for i in R]
        if not (g[0][0] > 0.2 and g[0][0] * g[1][1] - g[0][1] ** 2 > 0.1 and st.det.v / st.G.det.v > 0.1 and st.alpha.v > 0.2):
            continue
        if not c["T4"]:
            st.T4 = [[mpf(0)] * 4 for _ in range(4)]
        done += 1
        tag = f"{tag0} at xx={[mp.nstr(x, 8) for x in xx]} {p}"
        b = adm.bssn(G, st.g, st.K, cf)
        h = [x.v for x in G.h]
        F = {"alpha": st.alpha, "cf": b["cf"], "trK": b["trK"]}
        for i in R:
            F[f"vetU{i}"], F[f"betU{i}"], F[f"lambdaU{i}"] = st.beta[i] * G.h[i].trunc(2), st.B[i] * G.h[i].trunc(2), b["lam"][i]
            for j in range(i, 3):
                F[f"hDD{i}{j}"], F[f"aDD{i}{j}"] = b["h"][i][j], b["a"][i][j]
        N = [8, 2, 2] if c["simd"] else [rng.choice([1, 2, 3]) for _ in R]
        T = [n + 2 * NG for n in N]
        ic = [NG + rng.randrange(n) for n in N]
        dx = []
        lo, hi = coords.domain(s, p)
        for k in R:
            room = float(min(xx[k] - lo[k], hi[k] - xx[k]))
            dx.append(min(rng.uniform(0.05, 0.2), 0.9 * room / (NG + N[k])) * (1 if rng.random() < .5 else 0.7))
        # polynomials in the offset from the chosen point
        off = [np.array([(i - ic[k]) * dx[k] for i in range(T[k])]) for k in R]

        def poly(j):
            A = np.zeros(T)
            for m, co in zip(monos(3, j.N), j.c):
                A += float(co) * (off[0] ** m[0])[:, None, None] * (off[1] ** m[1])[None, :, None] * (off[2] ** m[2])[None, None, :]
            return A
        y = np.stack([poly(F[n]) for n in EV])
        nrng = np.random.default_rng(rng.randint(0, 2 ** 31))
        noise = nrng.uniform(-0.05, 0.05, y.shape)
        noise[:, ic[0], ic[1], ic[2]] = 0
        aux = nrng.uniform(0.01, 0.05, [len(AE)] + T)
        for m in range(4):
            for n in range(m, 4):
                if f"T4UU{m}{n}" in AE:
                    aux[AE.index(f"T4UU{m}{n}")] = float(st.T4[m][n])
        cah = round(rng.uniform(0.1, 0.6), 3)
        if "cahdprefactor" in AE:
            aux[AE.index("cahdprefactor")] = 0.0
        eta = round(rng.uniform(0.3, 3.0), 3)

        def call(mode, Y, A, cd):
            cd = list(cd) + [0.0] * (8 - len(cd))
            hd = np.array(N + ic + [mode, 0], np.int32).tobytes()
            pk = lambda Z: np.transpose(Z, (0, 3, 2, 1)).astype(np.float64).tobytes()
            r = vp.run_exe(exe, input=hd + np.array(dx + [float(x) for x in xx] + cd + [float(p[n]) for n in pnames]).tobytes() + pk(Y) + pk(A), env={"OMP_NUM_THREADS": str(c["threads"])})
            require(r.returncode == 0, f"{tag}: program failed rc={r.returncode} {r.stderr.decode(errors='replace')[:1500]}")
            z = np.frombuffer(r.stdout, np.float64)
            nn = [len(EV), len(AE), len(EV), len(AX)]
            require(z.size == sum(nn) * T[0] * T[1] * T[2], f"{tag}: unexpected output size")
            z = z.reshape(sum(nn), T[2], T[1], T[0]).transpose(0, 3, 2, 1)
            o = np.cumsum([0] + nn)
            return [z[o[i]:o[i + 1]] for i in range(4)]
        at = tuple(ic)
        # ---- Einstein's equations at the chosen point
        y1, a1, rhs, dg = call(0, y, aux, [eta])
        require(np.array_equal(y1, y), f"{tag}: evaluating the right-hand sides changed the evolved fields")
        inter = np.zeros(T, bool)
        inter[tuple(slice(NG, NG + n) for n in N)] = True
        require(np.isnan(rhs[:, ~inter]).all() and np.isnan(dg[:, ~inter]).all(), f"{tag}: a ghost point was written")
        H, M = st.constraints()
        dt = adm.flow(G, st, cf)
        em4 = b["em4"].v
        a = st.alpha.v
        w, br, Br = adm.gauge_rhs(st, b, G, dt, M, em4, c["lapse"], c["shift"], eta)
        X = {"cf": dt(lambda x: x["cf"].v), "trK": dt(lambda x: x["trK"].v) - a * H, "alpha": w}
        for i in R:
            X[f"lambdaU{i}"] = dt(lambda x: x["lam"][i].v) + 2 * a * M[i] * h[i] / em4
            X[f"vetU{i}"], X[f"betU{i}"] = br[i] * h[i], Br[i] * h[i]
            for j in range(i, 3):
                X[f"hDD{i}{j}"], X[f"aDD{i}{j}"] = dt(lambda x: x["h"][i][j].v), dt(lambda x: x["a"][i][j].v)
        # KO of a quadratic vanishes (fd order >= 2), so dissipation does not contribute here
        sc = float(max(1, max(abs(v) for v in X.values())))
        for n in EVOL:
            close(rhs[(EV.index(n),) + at], float(X[n]), sc, f"{tag}: d_t {n}")
        Rb = adm.ricci(b["Gb"])
        if c["rbar"]:
            for i in R:
                for j in range(i, 3):
                    close(a1[(AE.index(f"RbarDD{i}{j}"),) + at] / float(h[i] * h[j]), float(Rb[i][j].v / h[i] / h[j]), sc, f"{tag}: Ricci_eval RbarDD{i}{j}")
        close(dg[(AX.index("H"),) + at], float(H), sc, f"{tag}: Hamiltonian constraint")
        M2 = sum(b["gb"][i][j].v * M[i] * M[j] for i in R for j in R)
        close(dg[(AX.index("MSQUARED"),) + at], float(M2), float(1 + abs(M2)) * 10, f"{tag}: Msquared")
        # ---- dissipation, damping and slow-start lapse: contributions on rough data
        yn = y + noise
        base = call(0, yn, aux, [eta])[2]
        Wf = {"W": F["cf"].v, "chi": mp.sqrt(abs(F["cf"].v)), "phi": mp.exp(-2 * F["cf"].v)}[cf]
        W = float(Wf)
        if c["KO"]:
            sg, sn = round(rng.uniform(0.1, 0.9), 3), round(rng.uniform(0.1, 0.9), 3)
            ko = call(0, yn, aux, [eta, sg, sn])[2] - base
            for n in EVOL:
                if n.startswith("betU") and "2ndOrder" not in c["shift"]:
                    continue
                v = 0.0
                for k in R:
                    for o, wt in fdmodel.stencil3d(f"dKOD{k}", c["fd"])[0].items():
                        v += float(wt) * yn[(EV.index(n),) + tuple(at[q] + o[q] for q in R)] / dx[k] / float(h[k])
                v *= (sg if n in GAUGE else sn) * (W if c["CAKO"] else 1.0)
                close(ko[(EV.index(n),) + at], v, 1e-2 + np.abs(base[(slice(None),) + at]).max() * 1e-3, f"{tag}: Kreiss-Oliger term of {n} (strengths gauge {sg}, other {sn}; dx={dx})", tol=1e-6)
        if c["SSL"]:
            q = round(rng.uniform(0.2, 2), 3)
            ss = call(0, yn, aux, [eta, 0, 0, q])[2] - base
            for n in EVOL:
                v = -W * q * (float(a) - W) if n == "alpha" else 0.0
                close(ss[(EV.index(n),) + at], v, 1 + abs(base[(EV.index(n),) + at]), f"{tag}: slow-start-lapse term of {n}")
        if c["CAHD"]:
            A = aux.copy()
            A[AE.index("cahdprefactor")] = cah
            z = call(0, y, A, [eta])[2] - rhs
            for n in EVOL:
                v = 0.0
                if n == "cf":
                    v = float(-cah * H * {"phi": 1, "W": -2 * F["cf"].v, "chi": -4 * F["cf"].v}[cf])
                close(z[(EV.index(n),) + at], v, sc, f"{tag}: Hamiltonian-damping term of {n}")
        # ---- upwinding: perturb one field away from the point; its own advection term responds along the shift
        be = [float(st.beta[k].v) for k in R]
        for n in EVOL:
            if (n == "alpha" and c["lapse"] == "Frozen") or (n.startswith(("vetU", "betU")) and ("Gamma" not in c["shift"] or "NonAdv" in c["shift"])) or (n.startswith("betU") and "2ndOrder" not in c["shift"]):
                continue
            if n == "alpha" and c["lapse"] == "HarmonicSlicing":
                continue
            if n == "cf" or rng.random() < 0.5:
                e = EV.index(n)
                Y = y.copy()
                Y[e] += noise[e]
                z = call(0, Y, aux, [eta])[2][(e,) + at] - rhs[(e,) + at]
                v = 0.0
                for k in R:
                    st3 = fdmodel.stencil3d(f"{'dupD' if be[k] > 0 else 'ddnD'}{k}", c["fd"])[0]
                    v += be[k] / dx[k] * sum(float(wt) * noise[(e,) + tuple(at[q] + o[q] for q in R)] for o, wt in st3.items())
                close(z, v, 1 + np.abs(base[(e,) + at]), f"{tag}: upwinded advection of {n} (shift {be}, dx {dx})")
        # ---- determinant rescaling, prefactor
        if "hDD00" in EV:
            yd = y.copy()
            for n in EV:
                if n.startswith("hDD"):
                    yd[EV.index(n)] = nrng.uniform(-0.25, 0.25, T)
            y2, a2, _, _ = call(1, yd, aux, [eta, 0, 0, 0, 0.37, 0.61])
            hh = np.zeros([3, 3] + T)
            for i in R:
                for j in R:
                    hh[i, j] = yd[EV.index(f"hDD{min(i, j)}{max(i, j)}")] + (i == j)
            det = np.linalg.det(np.moveaxis(hh, (0, 1), (-2, -1)))
            for n in EV:
                e = EV.index(n)
                if n.startswith("hDD"):
                    i, j = int(n[3]), int(n[4])
                    want = hh[i, j] * np.cbrt(1 / det) - (i == j)
                    bad = ~(np.abs(y2[e] - want) <= 1e-9 * (1 + np.abs(want)))
                    require(not bad.any(), f"{tag}: enforcing the determinant gives {n}={y2[e][bad][:1]} instead of {want[bad][:1]}")
                else:
                    require(np.array_equal(y2[e], yd[e]), f"{tag}: enforcing the determinant changed {n}")
            if c["CAHD"]:
                ds = min(dx[k] * float(abs(h[k])) for k in R)
                close(a2[(AE.index("cahdprefactor"),) + at], 0.37 * 0.61 * ds, ds * 1e-2, f"{tag}: cahdprefactor")
    return f"{s} {cf}{' simd' if c['simd'] else ''}" if done else None


C.add_list("kernels", cases, run, shards=16, budget=600, rule="one generated solver (coordinate system x options) run on random states; at least one positive definite state")


# ---------------------------------------------------------------- initial data: ADM in a Cartesian or spherical basis -> BSSN gridfunctions
IDN = ["alpha"] + [f"betaU{i}" for i in R] + [f"BU{i}" for i in R] + [f"gammaDD{i}{j}" for i in R for j in range(i, 3)] + [f"KDD{i}{j}" for i in R for j in range(i, 3)] \
    + [f"T4UU{m}{n}" for m in range(4) for n in range(m, 4)]


def cases_id(tier, rng):
    from coords import SYSTEMS
    out = []
    # the reader needs Cart_to_xx: no closed form exists for the v2n systems, and SinhSymTP's is a known finding of C07
    order = [s for s in SYSTEMS if "v2n" not in s and s != "SinhSymTP"]
    rng.shuffle(order)
    for n, s in enumerate(order + order[:5] if tier == "quick" else order * 12):
        fd = rng.choice([2, 4, 4, 6])
        out.append(dict(coord=s, basis=["Spherical", "Cartesian"][(n + rng.randrange(2)) % 2] if tier != "quick" else ["Spherical", "Cartesian"][n % 2], cf=rng.choice(["W", "chi", "phi"]), T4=rng.random() < 0.5, fd=fd, up=rng.random() < 0.5,
                        offset=rng.random() < 0.6, ngrids=rng.choice([1, 1, 2]), threads=rng.choice([1, 3]), pts=14 if tier == "quick" else 60, seed=rng.randint(0, 10 ** 9)))
    return out


ID_BODY = r"""
  const double X = xCart[0], Y = xCart[1], Z = xCart[2];
  double f[29];
  for(int n = 0; n < 29; n++) { const double *q = ID_persist->q + 6 * n; f[n] = q[0] + q[1] * sin(q[2] * X + q[3] * Y + q[4] * Z + q[5]); }
  double J[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, Ji[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
#if @SPH@
  {
    const double r = sqrt(X * X + Y * Y + Z * Z), rho = sqrt(X * X + Y * Y), ct = Z / r, st = rho / r, cp = X / rho, sp = Y / rho;
    const double A[3][3] = {{st * cp, r * ct * cp, -r * st * sp}, {st * sp, r * ct * sp, r * st * cp}, {ct, -r * st, 0}};
    const double B[3][3] = {{st * cp, st * sp, ct}, {ct * cp / r, ct * sp / r, -st / r}, {-sp / (r * st), cp / (r * st), 0}};
    memcpy(J, A, sizeof(A)); memcpy(Ji, B, sizeof(B));
  }
#endif
  initial_data->alpha = f[0];
  double v[2][3] = {{0}}, t[2][3][3] = {{{0}}}, c[2][3][3], T[4][4], L[4][4] = {{1, 0, 0, 0}}, U[4][4] = {{0}};
  for(int q = 0; q < 2; q++) {
    int n = 7 + 6 * q;
    for(int i = 0; i < 3; i++) for(int j = i; j < 3; j++) c[q][i][j] = c[q][j][i] = f[n++];
    for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) {
      v[q][i] += Ji[i][j] * f[1 + 3 * q + j];
      for(int a = 0; a < 3; a++) for(int b = 0; b < 3; b++) t[q][i][j] += J[a][i] * J[b][j] * c[q][a][b];
    }
  }
  { int n = 19; for(int m = 0; m < 4; m++) for(int k = m; k < 4; k++) T[m][k] = T[k][m] = f[n++]; }
  for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) L[i + 1][j + 1] = Ji[i][j];
  for(int m = 0; m < 4; m++) for(int n = 0; n < 4; n++) for(int a = 0; a < 4; a++) for(int b = 0; b < 4; b++) U[m][n] += L[m][a] * L[n][b] * T[a][b];
"""


def run_id(c):
    import numpy as np
    from mpmath import mp, mpf
    import adm, bhah, coords, fdmodel
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import c13
    imports()
    import nrpy.params as par
    import nrpy.c_function as cfc
    import nrpy.infrastructures.BHaH.general_relativity.BSSN_C_codegen_library as L
    from nrpy.infrastructures.BHaH import griddata_commondata as gc
    from nrpy.infrastructures.BHaH import numerical_grids_and_timestep as ng
    from nrpy.infrastructures.BHaH import xx_tofrom_Cart as xt
    from nrpy.infrastructures.BHaH.CurviBoundaryConditions import CurviBoundaryConditions as cb
    from nrpy.equations.general_relativity.BSSN_quantities import BSSN_quantities
    mp.dps = 25
    s, cf = c["coord"], c["cf"]
    NG = c["fd"] // 2 + (1 if c["up"] else 0)
    bhah.start("double", c["fd"], s)
    clear(cf)
    for n, t, v in (("dt", "REAL", 0.1), ("time", "REAL", 0.0), ("nn", "int", 0), ("CFL_FACTOR", "REAL", 0.5)):
        if n not in par.glb_code_params_dict:
            par.register_CodeParameter(t, "t", n, v, commondata=True)
    if "NUMGRIDS" not in par.glb_code_params_dict:
        par.register_CodeParameter("int", "t", "NUMGRIDS", 1, commondata=True)
    with contextlib.redirect_stdout(io.StringIO()):
        _ = BSSN_quantities[s]
        if c["T4"]:
            import nrpy.grid as gri
            gri.register_gridfunctions_for_single_rank2("T4UU", symmetry="sym01", dimension=4, group="AUXEVOL")
        xt.register_CFunction_xx_to_Cart(s)
        xt.register_CFunction__Cart_to_xx_and_nearest_i0i1i2(s)
        cb.CurviBoundaryConditions_register_C_functions([s])
        ng.register_CFunctions(list_of_CoordSystems=[s], list_of_grid_physical_sizes=[10.0], Nxx_dict={s: [4, 4, 4]}, enable_set_cfl_timestep=False)
        gc.register_griddata_commondata("nrpy.infrastructures.BHaH.MoLtimestepping.MoL", "MoL_gridfunctions_struct gridfuncs", "x")
        from nrpy.infrastructures.BHaH import BHaH_defines_h as bd
        bd.register_BHaH_defines("nrpy.infrastructures.BHaH.MoLtimestepping.MoL", "typedef struct { REAL *restrict y_n_gfs; REAL *restrict auxevol_gfs; } MoL_gridfunctions_struct;\nextern double QQ[29*6];\n")
        L.register_CFunction_initial_data(s, "my_ID", c["basis"], "double q[29*6];", populate_ID_persist_struct_str="memcpy(ID_persist.q, QQ, sizeof(QQ));\n", enable_T4munu=c["T4"])
    out = "".join(f"  initial_data->betaSphorCartU{i} = v[0][{i}]; initial_data->BSphorCartU{i} = v[1][{i}];\n" for i in R)
    out += "".join(f"  initial_data->gammaSphorCartDD{i}{j} = t[0][{i}][{j}]; initial_data->KSphorCartDD{i}{j} = t[1][{i}][{j}];\n" for i in R for j in range(i, 3))
    if c["T4"]:
        out += "".join(f"  initial_data->T4SphorCartUU{m}{n} = U[{m}][{n}];\n" for m in range(4) for n in range(m, 4))
    cfc.register_CFunction(includes=["BHaH_defines.h", "BHaH_function_prototypes.h"], desc="x", name="my_ID",
                           params="const commondata_struct *restrict commondata, const params_struct *restrict params, const REAL xCart[3], const ID_persist_struct *restrict ID_persist, initial_data_struct *restrict initial_data",
                           body=ID_BODY.replace("@SPH@", "1" if c["basis"] == "Spherical" else "0") + out)
    from nrpy.grid import BHaHGridFunction
    EV, AX, AE = [list(z) for z in BHaHGridFunction.gridfunction_lists()]
    pn = [n for n in coords.param_names(s) if n.startswith("SINHW") or "slope" in n or n == "bScale"]
    main = r"""#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
double QQ[29*6];
int main() {
  if(fread(QQ, 8, 29*6, stdin) != 29*6) return 3;
  int NN[4]; if(fread(NN, 4, 4, stdin) != 4) return 3;
  commondata_struct commondata; commondata_struct_set_to_default(&commondata); commondata.NUMGRIDS = NN[3];
  griddata_struct *gd = calloc(NN[3], sizeof(griddata_struct)); params_struct_set_to_default(&commondata, gd);
  for(int g = 0; g < NN[3]; g++) {
    params_struct *params = &gd[g].params; double tmp;
    params->CoordSystem_hash = @HASH@;
    #define GET(x) if(fread(&tmp, 8, 1, stdin) != 1) return 3; params->x = tmp
    GET(grid_physical_size); GET(grid_hole_radius); GET(Cart_originx); GET(Cart_originy); GET(Cart_originz);
    @SETS@
    const int Nx[3] = {NN[0], NN[1], NN[2]};
    numerical_grid_params_Nxx_dxx_xx(&commondata, params, gd[g].xx, Nx, true);
    const long ntot = (long)params->Nxx_plus_2NGHOSTS0 * params->Nxx_plus_2NGHOSTS1 * params->Nxx_plus_2NGHOSTS2;
    gd[g].gridfuncs.y_n_gfs = malloc(8 * ntot * NUM_EVOL_GFS); gd[g].gridfuncs.auxevol_gfs = malloc(8 * ntot * (NUM_AUXEVOL_GFS + 1));
    for(long i = 0; i < ntot * NUM_EVOL_GFS; i++) gd[g].gridfuncs.y_n_gfs[i] = NAN;
    for(long i = 0; i < ntot * NUM_AUXEVOL_GFS; i++) gd[g].gridfuncs.auxevol_gfs[i] = NAN;
    bcstruct_set_up(&commondata, params, gd[g].xx, &gd[g].bcstruct);
  }
  initial_data(&commondata, gd);
  for(int g = 0; g < NN[3]; g++) {
    params_struct *params = &gd[g].params;
    const long ntot = (long)params->Nxx_plus_2NGHOSTS0 * params->Nxx_plus_2NGHOSTS1 * params->Nxx_plus_2NGHOSTS2;
    fwrite(gd[g].gridfuncs.y_n_gfs, 8, ntot * NUM_EVOL_GFS, stdout); fwrite(gd[g].gridfuncs.auxevol_gfs, 8, ntot * NUM_AUXEVOL_GFS, stdout);
  }
  return 0;
}
""".replace("@HASH@", s.upper()).replace("@SETS@", " ".join(f"GET({n});" for n in pn))
    exe, d = bhah.build(main, flags=["-O1", "-fopenmp", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], upwind=c["up"])
    rng = random.Random(f"c17id:{c['seed']}")
    fam = c13.family(s)
    N = {"sph": [6, 6, 6], "holey": [14, 6, 6], "ring": [14, 8, 6], "wedge": [14, 8, 8], "cyl": [6, 6, 6], "cart": [6, 5, 7], "tp": [6, 6, 6]}[fam]
    grids = []
    for g in range(c["ngrids"]):
        while True:
            P = {n: round(rng.uniform(0.4, 0.9), 3) if n.startswith("SINHW") else round(rng.uniform(0.1, 0.6), 3) if "slope" in n else round(rng.uniform(0.5, 1.5), 3) for n in pn}
            size, hole = round(rng.uniform(2, 6), 3), round(rng.uniform(0.9, 1.5), 3)
            full = {n: P.get(n, hole if n == "RMIN" else -size if n in ("xmin", "ymin", "zmin", "ZMIN") else size) for n in coords.param_names(s)}
            lo, hi = coords.domain(s, full)
            if fam not in ("holey", "ring", "wedge") or lo[0] - NG * (hi[0] - lo[0]) / N[0] > 0:
                break
        org = [round(rng.uniform(-1.3, 1.3), 3) for _ in R] if c["offset"] else [0.0] * 3
        grids.append((P, size, hole, org, full, lo, hi))
    q = []
    for n in IDN:
        big = n in ("alpha", "gammaDD00", "gammaDD11", "gammaDD22")
        q.append([rng.uniform(1.2, 1.6) if big else rng.uniform(-0.2, 0.2), rng.uniform(0.05, 0.15)] + [rng.uniform(-0.25, 0.25) for _ in R] + [rng.uniform(0, 6)])
    inp = np.array(q).tobytes() + np.array(N + [c["ngrids"]], np.int32).tobytes()
    for (P, size, hole, org, full, lo, hi) in grids:
        inp += np.array([size, hole] + org + [P[n] for n in pn]).tobytes()
    r = vp.run_exe(exe, input=inp, env={"OMP_NUM_THREADS": str(c["threads"]), "ASAN_OPTIONS": "detect_leaks=0"})
    tag0 = f"{s} from {c['basis']} basis, cf={cf} T4={c['T4']} fd={c['fd']} N={N}"
    require(r.returncode == 0, f"{tag0}: initial data failed rc={r.returncode} {r.stderr.decode(errors='replace')[:1500]}")
    T = [n + 2 * NG for n in N]
    z = np.frombuffer(r.stdout, np.float64)
    require(z.size == c["ngrids"] * (len(EV) + len(AE)) * T[0] * T[1] * T[2], f"{tag0}: output size {z.size}")
    z = z.reshape(c["ngrids"], len(EV) + len(AE), T[2], T[1], T[0]).transpose(0, 1, 4, 3, 2)
    seen = lams = 0
    for gi, (P, size, hole, org, full, lo, hi) in enumerate(grids):
        y, aux = z[gi][:len(EV)], z[gi][len(EV):]
        dx = [(hi[k] - lo[k]) / N[k] for k in R]
        require(not np.isnan(y).any(), f"{tag0}: NaN left in {[EV[i] for i in range(len(EV)) if np.isnan(y[i]).any()]}")
        allpts = [(a, b, e) for a in range(NG, NG + N[0]) for b in range(NG, NG + N[1]) for e in range(NG, NG + N[2])]
        edge = [i for i in allpts if i[0] == NG or i[1] == NG]
        for at in rng.sample(allpts, c["pts"] // 2) + rng.sample(edge, min(len(edge), c["pts"] // 2)):
            xx = [lo[k] + (at[k] - NG + mpf(1) / 2) * dx[k] for k in R]
            G = coords.Geometry(s, full, xx, 3)
            X = [G.X[k] + mpf(org[k]) for k in R]
            F = {}
            for n, w in zip(IDN, q):
                arg = X[0] * mpf(w[2]) + X[1] * mpf(w[3]) + X[2] * mpf(w[4]) + mpf(w[5])
                F[n] = (arg.sin() * mpf(w[1]) + mpf(w[0])).trunc(2)
            DD = lambda v: [[F[f"{v}{min(i, j)}{max(i, j)}"] for j in R] for i in R]
            J, Ji = G.J, G.Ji
            tr = lambda t: [[adm.S([J[a][i] * J[b][j] * t[a][b] for a in R for b in R], 2) for j in R] for i in R]
            g, K = tr(DD("gammaDD")), tr(DD("KDD"))
            b = adm.bssn(G, g, K, cf)
            h = [x.v for x in G.h]
            tag = f"{tag0} grid {gi} {full} origin {org} at xx={[mp.nstr(x, 8) for x in xx]}"
            want = {"alpha": F["alpha"].v, "cf": b["cf"].v, "trK": b["trK"].v}
            for i in R:
                want[f"vetU{i}"] = h[i] * sum(Ji[i][a].v * F[f"betaU{a}"].v for a in R)
                want[f"betU{i}"] = h[i] * sum(Ji[i][a].v * F[f"BU{a}"].v for a in R)
                for j in range(i, 3):
                    want[f"hDD{i}{j}"], want[f"aDD{i}{j}"] = b["h"][i][j].v, b["a"][i][j].v
            for n, w in want.items():
                close(y[(EV.index(n),) + at], float(w), 1.0, f"{tag}: {n}", tol=1e-8)
            if c["T4"]:
                Lm = [[mpf(1), 0, 0, 0]] + [[0] + [Ji[i][a].v for a in R] for i in R]
                for m in range(4):
                    for n in range(m, 4):
                        w = sum(Lm[m][a] * Lm[n][e] * F[f"T4UU{min(a, e)}{max(a, e)}"].v for a in range(4) for e in range(4))
                        sc = float((h[m - 1] if m else 1) * (h[n - 1] if n else 1))
                        close(aux[(AE.index(f"T4UU{m}{n}"),) + at] * sc, float(w) * sc, 1.0, f"{tag}: T4UU{m}{n}", tol=1e-8)
            seen += 1
            w = c["fd"] // 2
            if any(c13.index_map(fam, N, NG, j)[0] == j and not all(NG <= j[m] < NG + N[m] for m in R)
                   for k in R for j in [tuple(at[m] + (o if m == k else 0) for m in R) for o in range(-w, w + 1)]):
                continue        # the stencil reaches outer ghosts, which initial_data() overwrites afterwards by extrapolation
            # lambda^i from finite differences of h at the requested order
            hd = np.zeros([3, 3, 3])
            for i in R:
                for j in R:
                    e = EV.index(f"hDD{min(i, j)}{max(i, j)}")
                    for k in R:
                        for o, wt in fdmodel.stencil3d(f"dD{k}", c["fd"])[0].items():
                            hd[i, j, k] += float(wt) * y[(e,) + tuple(at[m] + o[m] for m in R)] / float(dx[k])
            # gammabar_ij,k with h,k from the stencil and the rest exact
            h1 = [x.trunc(1) for x in G.h]
            from jet import Jet
            gb = [[None] * 3 for _ in R]
            for i in R:
                for j in R:
                    hj = Jet(3, 1, [b["h"][i][j].v] + [mpf(0)] * 3)
                    for k in R:
                        from jet import index
                        hj.c[index(3, 1)[tuple(1 if m == k else 0 for m in R)]] = mpf(hd[i, j, k])
                    gb[i][j] = G.g[i][j].trunc(1) + h1[i] * h1[j] * hj
            from jet import inv3
            gbi, _ = inv3(gb)
            Gb = adm.christoffel(gb, gbi)
            for i in R:
                lam = h[i] * sum(gbi[j][k].v * (Gb[i][j][k].v - G.Gam[i][j][k].v) for j in R for k in R)
                close(y[(EV.index(f"lambdaU{i}"),) + at], float(lam), 1.0 + float(max(abs(1 / x) for x in h)), f"{tag}: lambdaU{i}", tol=1e-7)
            lams += 1
        # ghosts that coincide with other grid points
        for _ in range(60):
            i = tuple(rng.randrange(t) for t in T)
            m, sg = c13.index_map(fam, N, NG, i)
            if m == i:
                continue
            for n in EV:
                sgn = 1
                for ch in n[len(n.rstrip("012")):]:
                    sgn *= sg[int(ch)]
                close(y[(EV.index(n),) + i], sgn * y[(EV.index(n),) + m], 1e-12, f"{tag0} {full}: ghost {i} of {n} (image of {m})", tol=1e-13)
    return f"{s} from {c['basis']}" if seen and lams else None


C.add_list("initial_data", cases_id, run_id, shards=16, budget=600, rule="one generated initial-data reader run on random smooth ADM data; interior points of every grid compared")

if __name__ == "__main__":
    sys.exit(C.main())
