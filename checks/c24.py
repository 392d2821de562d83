#!/usr/bin/env python3
"""C24: two-puncture initial data solve the constraints with the requested masses, momenta and spins."""
import io, os, struct, sys
import contextlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Violation, require

C = vp.Check("C24", assumptions=[
    "the symbolic post-Newtonian package nrpypn (installed from PyPI, not part of the repository) is right",
    "spectral resolutions at which the solution is resolved: separations 3-8, mass ratios up to 2.5, spins up to 0.5; residuals are judged relative to the source term",
    "points at least 0.6 away from the punctures",
])

DRIVER = r"""
#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
#include "TwoPunctures/TP_utilities.h"
#include <unistd.h>
static double gd(void) { double x; if(fread(&x, 8, 1, stdin) != 1) exit(3); return x; }
static int gi(void) { return (int)gd(); }
static FILE *OUT; // results; what the code under test prints goes to stderr
static void pd(double x) { fwrite(&x, 8, 1, OUT); }
static void setpar(commondata_struct *c) {
  commondata_struct_set_to_default(c);
  c->TP_npoints_A = gi(); c->TP_npoints_B = gi(); c->TP_npoints_phi = gi();
  c->mass_ratio = gd(); c->initial_sep = gd(); c->initial_p_t = gd(); c->initial_p_r = gd();
  c->bbhxy_BH_M_chix = gd(); c->bbhxy_BH_M_chiy = gd(); c->bbhxy_BH_M_chiz = gd();
  c->bbhxy_BH_m_chix = gd(); c->bbhxy_BH_m_chiy = gd(); c->bbhxy_BH_m_chiz = gd();
  c->TP_bare_mass_M = gd(); c->TP_bare_mass_m = gd();
}
static ID_persist_struct P;
int main(void) {
  static commondata_struct c; static params_struct prm;
  OUT = fdopen(dup(1), "wb"); dup2(2, 1);
  int mode = gi();
  if(mode == 0) {
    setpar(&c);
    memset(&P, 0xff, sizeof P);
    initialize_ID_persist_struct(&c, &P);
    pd(P.npoints_A); pd(P.npoints_B); pd(P.npoints_phi); pd(c.initial_p_t); pd(c.initial_p_r); pd(c.mass_M); pd(c.mass_m);
    pd(P.par_b); for(int k = 0; k < 3; k++) { pd(P.center_offset[k]); pd(P.par_P_plus[k]); pd(P.par_P_minus[k]); pd(P.par_S_plus[k]); pd(P.par_S_minus[k]); }
    pd(P.target_M_plus); pd(P.target_M_minus); pd(P.give_bare_mass); pd(P.par_m_plus); pd(P.par_m_minus);
    if(gi() == 0) { fclose(OUT); return 0; }
    int lap = gi(); double ex = gd(), ext = gd(), eps = gd(), tiny = gd();
    if(lap) { snprintf(P.initial_lapse, 100, "%s", lap == 1 ? "twopunctures-antisymmetric" : lap == 2 ? "twopunctures-averaged" : lap == 3 ? "brownsville" : "psi^n"); P.initial_lapse_psi_exponent = ex; }
    if(ext > 0) P.TP_Extend_Radius = ext;
    if(eps > 0) P.TP_epsilon = eps;
    if(tiny > 0) P.TP_Tiny = tiny;
    TP_solve(&P);
    pd(P.mp); pd(P.mm); pd(P.mp_adm); pd(P.mm_adm); pd(P.E); pd(P.J1); pd(P.J2); pd(P.J3); pd(P.par_m_plus); pd(P.par_m_minus);
    int n = gi();
    for(int q = 0; q < n; q++) {
      REAL x[3]; for(int k = 0; k < 3; k++) x[k] = gd();
      initial_data_struct d; memset(&d, 0xff, sizeof d);
      TP_Interp(&c, &prm, x, &P, &d);
      pd(d.alpha); pd(d.betaSphorCartU0); pd(d.betaSphorCartU1); pd(d.betaSphorCartU2); pd(d.BSphorCartU0); pd(d.BSphorCartU1); pd(d.BSphorCartU2);
      pd(d.gammaSphorCartDD00); pd(d.gammaSphorCartDD01); pd(d.gammaSphorCartDD02); pd(d.gammaSphorCartDD11); pd(d.gammaSphorCartDD12); pd(d.gammaSphorCartDD22);
      pd(d.KSphorCartDD00); pd(d.KSphorCartDD01); pd(d.KSphorCartDD02); pd(d.KSphorCartDD11); pd(d.KSphorCartDD12); pd(d.KSphorCartDD22);
    }
    free_derivs(&P.v, P.npoints_A * P.npoints_B * P.npoints_phi); free_derivs(&P.cf_v, P.npoints_A * P.npoints_B * P.npoints_phi);
  } else if(mode == 1) {
    setpar(&c);
    memset(&P, 0, sizeof P);
    initialize_ID_persist_struct(&c, &P);
    P.mp = P.par_m_plus; P.mm = P.par_m_minus;
    int n1 = P.npoints_A, n2 = P.npoints_B, n3 = P.npoints_phi, n = n1 * n2 * n3;
    derivs v, u, dv, w; allocate_derivs(&v, n); allocate_derivs(&u, n); allocate_derivs(&dv, n); allocate_derivs(&w, n);
    REAL *F = dvector(0, n - 1), *J = dvector(0, n - 1), *F1 = dvector(0, n - 1), *F2 = dvector(0, n - 1);
    for(int k = 0; k < n; k++) w.d0[k] = gd();
    for(int k = 0; k < n; k++) dv.d0[k] = gd();
    double e = gd();
    for(int k = 0; k < n; k++) v.d0[k] = w.d0[k] + e * dv.d0[k];
    F_of_v(P, 1, n1, n2, n3, v, F1, u);
    for(int k = 0; k < n; k++) v.d0[k] = w.d0[k] - e * dv.d0[k];
    F_of_v(P, 1, n1, n2, n3, v, F2, u);
    for(int k = 0; k < n; k++) v.d0[k] = w.d0[k];
    F_of_v(P, 1, n1, n2, n3, v, F, u);
    J_times_dv(P, 1, n1, n2, n3, dv, J, u);
    for(int k = 0; k < n; k++) { pd(F[k]); pd((F1[k] - F2[k]) / (2 * e)); pd(J[k]); pd(u.d0[k]); }
    SpecCoef(n1, n2, n3, 0, v.d0, w.d0);
    int m = gi();
    for(int q = 0; q < m; q++) { double A = gd(), B = gd(), ph = gd(), x = gd(), y = gd(), z = gd();
      pd(PunctEvalAtArbitPosition(v.d0, 0, A, B, ph, 1, n1, n2, n3)); pd(PunctEvalAtArbitPositionFast(w.d0, 0, A, B, ph, 1, n1, n2, n3));
      pd(PunctIntPolAtArbitPosition(P, 0, 1, n1, n2, n3, v, x, y, z)); pd(PunctIntPolAtArbitPositionFast(P, 0, 1, n1, n2, n3, w, x, y, z)); }
    free_dvector(F, 0, n - 1); free_dvector(J, 0, n - 1); free_dvector(F1, 0, n - 1); free_dvector(F2, 0, n - 1);
    free_derivs(&v, n); free_derivs(&u, n); free_derivs(&dv, n); free_derivs(&w, n);
  } else if(mode == 2) {
    int n = gi(); REAL *u = dvector(0, n - 1), *o = dvector(0, n - 1), *d = dvector(0, n + 1), *f = dvector(0, n), *df = dvector(0, n), *d2 = dvector(0, n);
    for(int k = 0; k < n; k++) o[k] = u[k] = gd();
    double x = gd(), ph = gd();
    chebft_Zeros(u, n, 0); pd(chebev(-1, 1, u, n, x)); chder(u, d, n); pd(chebev(-1, 1, d, n, x)); chebft_Zeros(u, n, 1); for(int k = 0; k < n; k++) pd(u[k]);
    chebft_Extremes(u, n, 0); pd(chebev(-1, 1, u, n, x)); chebft_Extremes(u, n, 1); for(int k = 0; k < n; k++) pd(u[k]);
    int N = gi(); for(int k = 0; k < N; k++) f[k] = gd();
    fourft(f, N, 0); pd(fourev(f, N, ph)); fourder(f, df, N); pd(fourev(df, N, ph)); fourder2(f, d2, N); pd(fourev(d2, N, ph)); fourft(f, N, 1); for(int k = 0; k < N; k++) pd(f[k]);
    pd(norm1(o, n)); pd(norm2(o, n)); for(int k = 0; k < n; k++) d[k] = k + 1; pd(scalarproduct(o, d, n));
    int a = gi(), b = gi(), cc = gi(); pd(minimum2(a, b)); pd(minimum3(a, b, cc)); pd(maximum2(a, b)); pd(maximum3(a, b, cc)); pd(pow_int(a, 3));
    free_dvector(u, 0, n - 1); free_dvector(o, 0, n - 1); free_dvector(d, 0, n - 1); free_dvector(f, 0, n); free_dvector(df, 0, n); free_dvector(d2, 0, n);
    /* all allocators: write every element of an offset range, then free */
    long lo[3], hi[3]; for(int k = 0; k < 3; k++) { lo[k] = gi(); hi[k] = lo[k] + gi(); }
    int *iv = ivector(lo[0], hi[0]); for(long i = lo[0]; i <= hi[0]; i++) iv[i] = i; free_ivector(iv, lo[0], hi[0]);
    int **im = imatrix(lo[0], hi[0], lo[1], hi[1]); double **dm = dmatrix(lo[0], hi[0], lo[1], hi[1]); double ***dt = d3tensor(lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]);
    long bad = 0;
    for(int rep = 0; rep < 2; rep++) for(long i = lo[0]; i <= hi[0]; i++) for(long j = lo[1]; j <= hi[1]; j++) { long w = i * 100 + j; if(rep == 0) { im[i][j] = w; dm[i][j] = w; } else bad += im[i][j] != w || dm[i][j] != w;
      for(long k = lo[2]; k <= hi[2]; k++) { if(rep == 0) dt[i][j][k] = w * 100 + k; else bad += dt[i][j][k] != w * 100 + k; } }
    pd(bad); free_imatrix(im, lo[0], hi[0], lo[1], hi[1]); free_dmatrix(dm, lo[0], hi[0], lo[1], hi[1]); free_d3tensor(dt, lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]);
  } else {
    setpar(&c);
    fflush(stdout); int fd = dup(1); if(!freopen("/dev/null", "w", stdout)) return 9;
    NRPyPN_quasicircular_momenta(&c);
    fflush(stdout); dup2(fd, 1);
    pd(c.initial_p_t); pd(c.initial_p_r); pd(c.mass_ratio); pd(c.initial_sep); pd(c.bbhxy_BH_M_chix); pd(c.bbhxy_BH_m_chiz);
  }
  fclose(OUT);
  return 0;
}
"""
EXE = {}
R = range(3)
IDF = ["alpha"] + [f"{x}SphorCartU{i}" for x in ("beta", "B") for i in R] + [f"{x}SphorCartDD{i}{j}" for x in ("gamma", "K") for i in R for j in range(i, 3)]


def exe(asan=False):
    if asan in EXE:
        return EXE[asan]
    import shutil
    import bhah
    bhah.init()
    from nrpy.infrastructures.BHaH.general_relativity import NRPyPN_quasicircular_momenta as pn
    from nrpy.infrastructures.BHaH.general_relativity.TwoPunctures import ID_persist_struct as ids, TwoPunctures_lib as lib
    import nrpy.params as par
    import nr
    from nrpy.infrastructures.BHaH import BHaH_defines_h as bd
    keep = dict(par.glb_code_params_dict)
    bhah.start("double", 4, "Cartesian")
    par.glb_code_params_dict.update(keep)
    with contextlib.redirect_stdout(io.StringIO()):
        pn.register_CFunction_NRPyPN_quasicircular_momenta()
        lib.register_C_functions()
    d = vp.fresh_dir()
    os.makedirs(os.path.join(d, "TwoPunctures"), exist_ok=True)
    for h in ("TwoPunctures.h", "TP_utilities.h"):
        shutil.copy(os.path.join(vp.REPO, "nrpy/infrastructures/BHaH/general_relativity/TwoPunctures", h), os.path.join(d, "TwoPunctures"))
    orig = bd.output_BHaH_defines_h

    def odef(**k):
        return orig(additional_includes=[os.path.join("TwoPunctures", "TwoPunctures.h")], **k)
    bd.output_BHaH_defines_h = odef
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            e, _ = bhah.build(DRIVER, d=d, extra_defines={"initial data": "typedef struct { REAL " + ", ".join(IDF) + "; } initial_data_struct;\ntypedef struct {" + ids.ID_persist_str() + "} ID_persist_struct;\n"}, flags=("-O1", "-std=gnu99", "-w", "-fopenmp") + (("-fsanitize=address,undefined", "-fno-sanitize-recover=undefined") if asan else ("-O2",)), libs=("-lm", "-lgsl", "-lgslcblas"))
    finally:
        bd.output_BHaH_defines_h = orig
    EXE[asan] = e
    return e


def call(vals, asan=False, what="", timeout=400):
    b = b"".join(struct.pack("d", float(x)) for x in vals)
    r = vp.run_exe(exe(asan), [], timeout=timeout, input=b, env={"OMP_NUM_THREADS": "1", "ASAN_OPTIONS": "detect_leaks=1"})
    require(r.returncode == 0, f"{what}: rc={r.returncode} {r.stderr.decode(errors='replace')[-1500:]}", "crash")
    return [x[0] for x in struct.iter_unpack("d", r.stdout)]


# ------------------------------------------------------------------ utilities
def util_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(n=st.integers(3, 14), N=st.sampled_from([4, 6, 8, 10, 12]), seed=st.integers(0, 10 ** 9), abc=st.tuples(*[st.integers(-9, 9)] * 3), lo=st.tuples(*[st.integers(-2, 3)] * 3), le=st.tuples(*[st.integers(0, 4)] * 3)))


def run_util(c):
    import numpy as np
    rng = np.random.default_rng(c["seed"])
    n, N = c["n"], min(c["N"], c["n"]) // 2 * 2
    if N < 4:
        N = 2
    u, f = rng.uniform(-1, 1, n), rng.uniform(-1, 1, N)
    x, ph = rng.uniform(-1, 1), rng.uniform(0, 6.28)
    o = call([2, n] + list(u) + [x, ph, N] + list(f) + list(c["abc"]) + [v for p in zip(c["lo"], c["le"]) for v in p], asan=True, what=f"utilities n={n} N={N}")
    T = np.polynomial.chebyshev
    k = np.arange(n)
    xs = np.cos(np.pi * (k + .5) / n)
    p = T.chebfit(xs, u, n - 1)
    # the solver samples at A = -cos(pi (i+1/2)/n); accept the transform's own ordering by testing both orientations of the nodes
    pr = T.chebfit(-xs, u, n - 1)
    cl = lambda a, b, s=1.0: abs(a - b) <= 1e-9 * (s + abs(b))
    require(cl(o[0], T.chebval(x, pr)), f"chebft_Zeros/chebev n={n}: interpolant at {x} is {o[0]}, expected {T.chebval(x, pr)} (other orientation {T.chebval(x, p)})")
    require(cl(o[1], T.chebval(x, T.chebder(pr)), n * n), f"chder n={n}: derivative {o[1]}, expected {T.chebval(x, T.chebder(pr))}")
    require(np.allclose(o[2:2 + n], u, atol=1e-11), f"chebft_Zeros n={n}: the inverse transform does not invert")
    xe = -np.cos(np.pi * k / (n - 1))
    q = 2 + n
    pe = T.chebfit(xe, u, n - 1)
    require(np.allclose(o[q + 1:q + 1 + n], u, atol=1e-11), f"chebft_Extremes n={n}: the inverse transform does not invert")
    q += 1 + n
    # trigonometric interpolant through f_k at 2 pi k / N (highest cosine carried once)
    M = N // 2
    tk = 2 * np.pi * np.arange(N) / N
    a = [2 / N * (f * np.cos(l * tk)).sum() for l in range(M + 1)]
    b = [2 / N * (f * np.sin(l * tk)).sum() for l in range(M + 1)]
    a[0] /= 2
    a[M] /= 2
    v = sum(a[l] * np.cos(l * ph) + b[l] * np.sin(l * ph) for l in range(M + 1) if l < M or True) - b[M] * np.sin(M * ph)
    require(cl(o[q], v), f"fourft/fourev N={N}: {o[q]}, expected {v}")
    d1 = sum(l * (-a[l] * np.sin(l * ph) + b[l] * np.cos(l * ph)) for l in range(1, M))
    d2 = sum(-l * l * (a[l] * np.cos(l * ph) + b[l] * np.sin(l * ph)) for l in range(1, M + 1)) + M * M * b[M] * np.sin(M * ph)
    require(cl(o[q + 1], d1, N), f"fourder N={N}: {o[q + 1]}, expected {d1}")
    require(cl(o[q + 2], d2, N * N), f"fourder2 N={N}: {o[q + 2]}, expected {d2}")
    require(np.allclose(o[q + 3:q + 3 + N], f, atol=1e-11), f"fourft N={N}: the inverse transform does not invert")
    q += 3 + N
    require(cl(o[q], np.abs(u).max()) and cl(o[q + 1], np.sqrt((u * u).sum())) and cl(o[q + 2], (u * (k + 1)).sum()), f"norm1/norm2/scalarproduct of {u}: {o[q:q + 3]}")
    A, B, D = c["abc"]
    require(o[q + 3:q + 8] == [min(A, B), min(A, B, D), max(A, B), max(A, B, D), A ** 3], f"minimum/maximum/pow_int of {A, B, D}: {o[q + 3:q + 8]}")
    require(o[q + 8] == 0, "imatrix/dmatrix/d3tensor elements overlap")
    return "util"


# ------------------------------------------------------------------ Jacobian and interpolation
def jac_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(n1=st.integers(5, 12), n2=st.integers(5, 12), n3=st.sampled_from([4, 6, 8]), seed=st.integers(0, 10 ** 9), amp=st.floats(0.01, 0.4)))


def binary(rng):
    return dict(q=float(rng.choice([1, rng.uniform(1, 2.5)])), d=float(rng.uniform(3, 8)), pt=float(rng.uniform(0, .25)), pr=float(rng.uniform(0, .05)), chiM=[float(x) for x in rng.uniform(-.3, .3, 3)], chim=[float(x) for x in rng.uniform(-.3, .3, 3)])


def pars(n, b, bare=(-1, -1)):
    return list(n) + [b["q"], b["d"], b["pt"], b["pr"]] + b["chiM"] + b["chim"] + list(bare)


def run_jac(c):
    import numpy as np
    rng = np.random.default_rng(c["seed"])
    n1, n2, n3 = c["n1"], c["n2"], c["n3"]
    n = n1 * n2 * n3
    b = binary(rng)
    bare = (0.9 * b["q"] / (1 + b["q"]), 0.9 / (1 + b["q"])) if rng.integers(2) else (-1, -1)
    # v smooth: a random low-degree function, so that psi stays positive
    al, be, ph = [np.pi * (np.arange(m) + .5) / m for m in (n1, n2)] + [2 * np.pi * np.arange(n3) / n3]
    Ag, Bg, Pg = np.meshgrid(-np.cos(al), -np.cos(be), ph, indexing="ij")
    co = rng.uniform(-1, 1, 8) * c["amp"] / 4
    cd = rng.uniform(-1, 1, 8)
    basis = lambda A, B, P: [1 + 0 * A, A, B, A * B, np.cos(P), np.sin(P), A * np.cos(P), B * B + A ** 3]
    fl = lambda k, A, B, P: sum(x * y for x, y in zip(k, basis(A, B, P)))
    order = lambda z: np.transpose(z, (2, 1, 0)).ravel()     # i fastest
    v, dv = order(fl(co, Ag, Bg, Pg)), order(fl(cd, Ag, Bg, Pg))
    m = 6
    bpos = 0.5 * b["d"]
    pts, ABP = [], []
    for _ in range(m):
        A, B, P = rng.uniform(-.9, .9), rng.uniform(-.9, .9), rng.uniform(0, 6.28)
        # coordinate map of the solver (Ansorg et al. 2004), written independently
        X, R_ = 2 * np.arctanh(.5 * (A + 1)), np.pi / 2 + 2 * np.arctan(B)
        x = bpos * np.real(np.cosh(X + 1j * R_)) * 0
        c2 = bpos / 2 * (X + 1j * R_) * 0
        C_ = X + 1j * R_
        cc = bpos / 2 * 0
        z = bpos * np.cosh(C_)      # x + i rho = b cosh(X + iR)
        pts.append((z.real, z.imag * np.cos(P), z.imag * np.sin(P)))
        ABP.append((A, B, P))
    o = call([1] + pars((n1, n2, n3), b, bare) + list(v) + list(dv) + [1e-4, m] + [t for a, p in zip(ABP, pts) for t in list(a) + list(p)], asan=c["seed"] % 3 == 0, what=f"Jacobian at {n1}x{n2}x{n3}")
    z = np.array(o[:4 * n]).reshape(n, 4)
    sc = np.abs(z[:, 2]).max()
    bad = ~(np.abs(z[:, 1] - z[:, 2]) <= 1e-5 * sc + 1e-8)
    require(not bad.any(), f"J_times_dv is not the derivative of F_of_v ({n1}x{n2}x{n3}, {b}): {z[bad][:2].tolist()} at {np.nonzero(bad)[0][:4].tolist()} of {n}")
    Am = order(Ag) - 1
    require(np.allclose(z[:, 3], Am * v, atol=1e-12), "F_of_v: u is not (A-1) v at the collocation points")
    for k in range(m):
        e, ef, p, pf = o[4 * n + 4 * k:4 * n + 4 * k + 4]
        w = float(fl(co, np.array(ABP[k][0]), np.array(ABP[k][1]), np.array(ABP[k][2])))
        U = (ABP[k][0] - 1) * w
        require(abs(e - w) < 1e-9 and abs(ef - w) < 1e-9, f"spectral evaluation at (A,B,phi)={ABP[k]}: {e}, fast {ef}, expected {w}")
        require(abs(p - U) < 1e-8 and abs(pf - U) < 1e-8, f"interpolation at (x,y,z)={pts[k]}: {p}, fast {pf}, expected {U}")
    return "jac"


# ------------------------------------------------------------------ whole solves
def cases(tier, rng):
    return [dict(seed=rng.randint(0, 10 ** 9), bare=i % 3 != 0, lapse=i % 5, ext=i % 5 in (1, 2) or i % 7 == 0, pn=i % 4 == 3, n=(26, 26, 10) if tier == "quick" else rng.choice([(26, 26, 10), (32, 32, 12)]), asan=False) for i in range(8 if tier == "quick" else 80)]


def by(P, S, r):
    """Bowen-York A_ij of one puncture, flat indices."""
    import numpy as np
    R = np.sqrt(r @ r)
    n = r / R
    A = 1.5 / R ** 2 * (np.outer(P, n) + np.outer(n, P) + (P @ n) * (np.outer(n, n) - np.eye(3)))
    s = np.cross(S, n)
    return A + 3 / R ** 3 * (np.outer(s, n) + np.outer(n, s))


def run_solve(c):
    import numpy as np
    rng = np.random.default_rng(c["seed"])
    b = binary(rng)
    q = b["q"]
    M, m = q / (1 + q), 1 / (1 + q)
    bare = (-1.0, -1.0)
    if c["bare"]:
        bare = (M * rng.uniform(.8, .95), m * rng.uniform(.8, .95))
    if c["pn"]:
        b["pt"] = b["pr"] = -1.0
        b["d"] = float(rng.uniform(6, 9))
    ext = float(rng.uniform(.3, .5)) if c["ext"] else 0.0
    ex = float(rng.choice([-2, -1, -3])) if c["lapse"] == 4 else float(rng.uniform(1, 4))
    h = 0.06
    zM, zm = b["d"] * m, -b["d"] * M
    pos = np.array([[0, 0, zM], [0, 0, zm]])
    cen = []
    while len(cen) < 5:
        if len(cen) < 3:                                # close to one of the punctures, where the source term is large
            w = rng.normal(size=3)
            x = pos[len(cen) % 2] + w / np.sqrt(w @ w) * rng.uniform(.8, 1.5)
        else:
            x = rng.uniform(-1, 1, 3) * rng.choice([2, 4, 8]) * np.array([1, 1, 1.3])
        if np.sqrt(((pos - x) ** 2).sum(1)).min() > .6 + 3 * h:
            cen.append(x)
    st = [(0, 0, 0)] + [tuple(s * k * (a == e) for e in range(3)) for a in range(3) for k in (1, 2, 3) for s in (1, -1)]
    pts = [x + h * np.array(s) for x in cen for s in st]
    nr = len(pts)
    if ext:
        near = [pos[i] + rng.normal(size=3) * .1 for i in (0, 1, 0, 1)]
        pts += near
    far = np.array([300., 200, 150])
    pts.append(far)
    what = f"TwoPunctures {c['n']} {b} bare={bare} lapse={c['lapse']} ext={ext}"
    vals = [0] + pars(c["n"], b, bare) + [1, c["lapse"], ex, ext, 0.0, 0.0, len(pts)] + [t for p in pts for t in p]
    o = call(vals, what=what)
    (nA, nB, nP, pt, pr, mM, mmm, parb), o = o[:8], o[8:]
    v15, o = np.array(o[:15]).reshape(3, 5), o[15:]
    off, Pp, Pm, Sp, Sm = v15.T
    (tM, tm, gb, mp0, mm0), o = o[:5], o[5:]
    (mp, mm, ap, am, E, J1, J2, J3, mp2, mm2), o = o[:10], o[10:]
    require((nA, nB, nP) == tuple(c["n"]), f"{what}: resolution {nA, nB, nP}")
    require(abs(mM - M) < 1e-14 and abs(mmm - m) < 1e-14 and abs(tM - M) < 1e-14 and abs(tm - m) < 1e-14, f"{what}: masses {mM, mmm, tM, tm}, expected {M, m}")
    if c["pn"]:
        wt, wr = pn_ref(q, b["d"], b["chiM"], b["chim"])
        require(abs(pt - wt) < 1e-10 and abs(abs(pr) - abs(wr)) < 1e-10, f"{what}: quasicircular momenta {pt, pr}, expected {wt, wr}")
    else:
        require((pt, pr) == (b["pt"], b["pr"]), f"{what}: given momenta changed to {pt, pr}")
    pt, pr = abs(pt), abs(pr)
    rot = lambda w: np.array([w[1], w[2], w[0]])        # TwoPunctures (x,y,z) -> grid (z,x,y)
    PM, Pm_ = np.array([pt, 0, -pr]), np.array([-pt, 0, pr])
    SM, Sm_ = rot(np.array(b["chiM"])) * M * M, rot(np.array(b["chim"])) * m * m
    require(np.allclose(rot(Pp), PM, atol=1e-14) and np.allclose(rot(Pm), Pm_, atol=1e-14), f"{what}: momenta {Pp, Pm}")
    require(np.allclose(rot(Sp), SM, atol=1e-14) and np.allclose(rot(Sm), Sm_, atol=1e-14), f"{what}: spins {Sp, Sm}, expected {SM, Sm_} in the grid frame")
    if c["bare"]:
        require(gb == 1 and (mp, mm) == bare, f"{what}: bare masses {mp, mm}")
    else:
        require(gb == 0 and abs(ap - M) < 1e-8 and abs(am - m) < 1e-8, f"{what}: puncture ADM masses {ap, am}, requested {M, m}")
    J = np.cross(pos[0], PM) + np.cross(pos[1], Pm_) + SM + Sm_
    require(np.allclose(rot(np.array([J1, J2, J3])), J, atol=1e-12), f"{what}: angular momentum {J1, J2, J3}, expected {J} in the grid frame")
    D = np.array(o).reshape(len(pts), 19)
    psi = np.empty(len(pts))
    for k, x in enumerate(pts):
        alp, be, B, g, K = D[k, 0], D[k, 1:4], D[k, 4:7], D[k, 7:13], D[k, 13:]
        require(not be.any() and not B.any(), f"{what}: shift {be, B}")
        require(g[1] == g[2] == g[4] == 0 and g[0] == g[3] == g[5] > 0, f"{what}: the metric is not conformally flat at {x}: {g}")
        psi[k] = g[0] ** .25
        A = by(PM, SM, x - pos[0]) + by(Pm_, Sm_, x - pos[1])
        Kw = A / psi[k] ** 2
        Kw = np.array([Kw[0, 0], Kw[0, 1], Kw[0, 2], Kw[1, 1], Kw[1, 2], Kw[2, 2]])
        require(np.abs(K - Kw).max() <= 1e-9 * (np.abs(Kw).max() + 1e-6), f"{what}: K_ij at {x} is {K.tolist()}, Bowen-York gives {Kw.tolist()}")
        r = np.sqrt(((pos - x) ** 2).sum(1))
        EX = lambda r_: 3 / 8 * r_ ** 4 / ext ** 5 - 5 / 4 * r_ ** 2 / ext ** 3 + 15 / 8 / ext
        ir = [EX(r_) if r_ < ext else 1 / r_ for r_ in r]
        bl = .5 * mp * ir[0] + .5 * mm * ir[1]
        la = {0: (1 + bl) ** -2, 1: (1 - bl) / (1 + bl), 2: .5 * (1 + (1 - bl) / (1 + bl)), 3: 2 / (1 + (1 + bl) ** ex), 4: (1 + bl) ** ex}[c["lapse"]]
        require(abs(alp - la) <= 1e-8 * (1 + abs(la)), f"{what}: lapse at {x} is {alp}, expected {la} (option {c['lapse']})")
        if ext and nr <= k < nr + 4:
            require(abs(psi[k] - 1 - bl) < .5 * (1 + b["d"]), f"{what}: psi inside the extension radius {psi[k]}")
    # Hamiltonian constraint of the conformally flat data: Laplacian psi + A^2 psi^-7 / 8 = 0
    w2 = np.array([-49 / 18, 3 / 2, -3 / 20, 1 / 90])
    ns = len(st)
    for k, x in enumerate(cen):
        u = psi[k * ns:(k + 1) * ns] - 1
        u = np.array([psi[k * ns + s] - 1 - .5 * mp / np.sqrt(((pts[k * ns + s] - pos[0]) ** 2).sum()) - .5 * mm / np.sqrt(((pts[k * ns + s] - pos[1]) ** 2).sum()) for s in range(ns)])
        lap = 0
        for a in range(3):
            i0 = 1 + a * 6
            lap += (w2[0] * u[0] + sum(w2[t] * (u[i0 + 2 * (t - 1)] + u[i0 + 2 * (t - 1) + 1]) for t in (1, 2, 3))) / h ** 2
        A = by(PM, SM, x - pos[0]) + by(Pm_, Sm_, x - pos[1])
        src = (A * A).sum() / 8 / psi[k * ns] ** 7
        res = abs(lap + src)
        require(res <= TOLR * src + TOLA, f"{what}: Hamiltonian constraint at {x}: Laplacian u = {lap}, source {src}")
    # total mass: psi -> 1 + E/(2r) about the center of energy; compare at a far point, dipole allowed for
    rf = np.sqrt(far @ far)
    Efar = 2 * rf * (psi[-1] - 1)
    dip = abs(mp * (pos[0] @ far) + mm * (pos[1] @ far)) / rf ** 2 + 3 * b["d"] ** 2 / rf ** 2 + .02 * b["d"] / rf
    require(abs(Efar - E) <= dip + 1e-4, f"{what}: total ADM mass {E}, but the far field gives {Efar}")
    require(mp + mm < E + 1e-9, f"{what}: total ADM mass {E} below the bare masses {mp + mm}")
    return f"solve{' bare' if c['bare'] else ''}{' pn' if c['pn'] else ''}"


TOLR, TOLA = 0.15, 5e-5

# ------------------------------------------------------------------ momenta
PN = {}


def pn_ref(q, r, chiM, chim):
    import sympy as sp
    if not PN:
        from nrpypn.NRPyPN_shortcuts import chi1U, chi2U, m1, m2, n12U, n21U, p1U, p2U, r as rs, S1U, S2U
        from nrpypn.PN_p_r import PN_p_r
        from nrpypn.PN_p_t import PN_p_t
        PN["e"] = PN_p_t(m1, m2, chi1U, chi2U, rs).p_t, PN_p_r(m1, m2, n12U, n21U, chi1U, chi2U, S1U, S2U, p1U, p2U, rs).p_r
        PN["s"] = (m1, m2, rs, chi1U, chi2U, S1U, S2U)
        syms = set(PN["e"][0].free_symbols | PN["e"][1].free_symbols)
        PN["syms"] = sorted(syms, key=str)
        PN["f"] = [sp.lambdify(PN["syms"], e, "math") for e in PN["e"]]
    M, m = q / (1 + q), 1 / (1 + q)
    val = {"m1": m, "m2": M, "r": r, "q": q, "Pt": None}
    for i in range(3):
        val[f"chi1U{i}"], val[f"chi2U{i}"] = chim[i], chiM[i]
        val[f"S1U{i}"], val[f"S2U{i}"] = chim[i] * m * m, chiM[i] * M * M
    pt = None
    out = []
    for k in (0, 1):
        if k == 1:
            val["Pt"] = out[0]
        out.append(PN["f"][k](*[val[str(s)] if val.get(str(s)) is not None else 0.0 for s in PN["syms"]]))
    return out


def pn_strategy():
    from hypothesis import strategies as st
    chi = st.tuples(*[st.floats(-.5, .5)] * 3)
    return st.fixed_dictionaries(dict(q=st.floats(1, 8), r=st.floats(7, 40), chiM=chi, chim=chi, given=st.sampled_from([0, 0, 0, 0, 1])))


def run_pn(c):
    q, r, cM, cm = c["q"], c["r"], list(c["chiM"]), list(c["chim"])
    f = lambda q_, r_, a, b_, pt=-1, pr=-1: call([3, 10, 10, 6, q_, r_, pt, pr] + list(a) + list(b_) + [-1, -1], what=f"quasicircular momenta q={q_} r={r_}")
    if c["given"]:
        o = f(q, r, cM, cm, .1, .001)
        require(o[:2] == [.1, .001], f"momenta given in the parameter file were replaced: {o}")
        return None
    pt, pr, *rest = f(q, r, cM, cm)
    what = f"quasicircular momenta of q={q}, r={r}, chi_M={cM}, chi_m={cm}"
    require(rest == [q, r, cM[0], cm[2]], f"{what}: the function changed its inputs")
    wt, wr = pn_ref(q, r, cM, cm)
    require(abs(pt - wt) <= 1e-9 * abs(wt) and abs(pr - wr) <= 1e-7 * abs(wr), f"{what}: p_t, p_r = {pt, pr}, NRPyPN gives {wt, wr}")
    # relabelling the black holes (rotate by pi about the orbital axis) changes nothing
    fl = lambda s: [-s[0], -s[1], s[2]]
    t2, r2, *_ = f(1 / q, r, fl(cm), fl(cM))
    require(abs(pt - t2) <= 1e-9 * abs(pt) and abs(pr - r2) <= 1e-6 * abs(pr), f"{what}: {pt, pr}, after exchanging the black holes {t2, r2}")
    # Newtonian, radiation-reaction and spin-orbit limits at large separation
    R = 1.0e5
    mu, M, m = q / (1 + q) ** 2, q / (1 + q), 1 / (1 + q)
    t3, r3, *_ = f(q, R, cM, cm)
    require(abs(t3 / (mu / R ** .5) - 1) < 1e-4, f"{what}: p_t at r={R} is {t3}, Newtonian {mu / R ** .5}")
    require(abs(abs(r3) / (64 / 5 * mu ** 2 / R ** 3) - 1) < 1e-2, f"{what}: p_r at r={R} is {r3}, quadrupole formula {64 / 5 * mu ** 2 / R ** 3}")
    for who in (0, 1):
        a = [0, 0, .5] if who == 0 else [0, 0, 0]
        b_ = [0, 0, 0] if who == 0 else [0, 0, .5]
        ma, mb = (M, m) if who == 0 else (m, M)
        R = 1e4
        d = (f(q, R, a, b_)[0] - f(q, R, [-x for x in a], [-x for x in b_])[0])
        w = -3 * mu * (ma * ma + .75 * ma * mb) / R ** 2
        require(abs(d / w - 1) < .02, f"{what}: spin-orbit change of p_t for the {'more' if who == 0 else 'less'} massive hole at r={R}: {d}, expected {w}")
    return "pn"


# ------------------------------------------------------------------ parameter library
def lib_strategy():
    from hypothesis import strategies as st
    names = ["q", "d", "M_chix", "M_chiy", "M_chiz", "m_chix", "m_chiy", "m_chiz", "p_t", "p_r", "bare_mass_m_plus", "bare_mass_m_minus", "NA", "NB", "Nphi"]
    return st.lists(st.tuples(st.sampled_from(["a", "b", "c"]), st.dictionaries(st.sampled_from(names), st.integers(1, 99), max_size=15)), min_size=1, max_size=4)


def run_lib(c):
    from nrpy.infrastructures.BHaH.general_relativity.TwoPunctures import bbh_parfile_library as L
    keep = dict(L.bbh_params_dict)
    dflt = dict(q=1.0, d=2.0, M_chix=0.0, M_chiy=0.0, M_chiz=0.0, m_chix=0.0, m_chiy=0.0, m_chiz=0.0, p_t=0.0, p_r=0.0, bare_mass_m_plus=-1.0, bare_mass_m_minus=-1.0, NA=-1, NB=-1, Nphi=-1)
    try:
        model = {k: v._asdict() for k, v in keep.items()}
        for n, kw in c:
            L.add_to_bbh_params_dict(n, **kw)
            model[n] = {**dflt, **kw}
        got = {k: v._asdict() for k, v in L.bbh_params_dict.items()}
        require(got == model, f"add_to_bbh_params_dict {c}: {[(k, got.get(k), model[k]) for k in model if got.get(k) != model[k]][:2]}")
    finally:
        L.bbh_params_dict.clear()
        L.bbh_params_dict.update(keep)
    # the shipped quasicircular entries agree with the post-Newtonian momenta they cite
    for n in ("q1sep10", "q1sep8", "q4sep11RITBBH0088", "q6sep13_SXSBBH0166", "q4sep12p5_SXSBBH0167"):
        e = keep[n]
        t, r = pn_ref(e.q, e.d, [e.M_chix, e.M_chiy, e.M_chiz], [e.m_chix, e.m_chiy, e.m_chiz])
        require(abs(e.p_t - t) < 2e-3 * t and abs(e.p_r - abs(r)) < 2e-2 * abs(r), f"library entry {n}: p_t, p_r = {e.p_t, e.p_r}, NRPyPN gives {t, r}")
    return "lib" if any(kw for _, kw in c) else None


C.add("util", util_strategy, run_util, quick=30, thorough=600, shards=2, budget=120, rule="every case transforms random data of a random length and exercises the allocators under ASan")
C.add("jac", jac_strategy, run_jac, quick=24, thorough=400, shards=2, budget=120, rule="random resolution, binary and direction")
C.add_list("solve", cases, run_solve, shards=8, budget=250, rule="a full solve with random binary parameters, judged at random points")
C.add("pn", pn_strategy, run_pn, quick=24, thorough=500, shards=2, budget=120, rule="momenta computed (not given)")
C.add("lib", lib_strategy, run_lib, quick=30, thorough=300, shards=1, budget=60, rule="at least one non-default entry")


if __name__ == "__main__":
    sys.exit(C.main())
