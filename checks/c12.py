#!/usr/bin/env python3
"""C12: time integrators have their stated order, and the generated timestepping performs exactly them."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Violation, require

C = vp.Check("C12", assumptions=[
    "order: the stated order of an adaptive table is that of its HO row, its LO row is one order lower",
    "coefficients of the Dormand-Prince 8 tables are 18-digit rational approximations, so equality is up to 1e-13",
    "time equals nn*dt when a step starts (as the initialisation sets it)",
    "SIMD update loops are announced as unsupported by nrpy and not generated",
])

METHODS = ["Euler", "RK2 Heun", "RK2 MP", "RK2 Ralston", "RK3", "RK3 Heun", "RK3 Ralston", "SSPRK3", "RK4", "DP5", "DP5alt", "CK5", "DP6", "L6", "DP8"]
ADAPT = ["AHE", "ABS", "ARKF", "ACK", "ADP5", "ADP8"]
ORDER = {"Euler": 1, "RK2 Heun": 2, "RK2 MP": 2, "RK2 Ralston": 2, "RK3": 3, "RK3 Heun": 3, "RK3 Ralston": 3, "SSPRK3": 3, "RK4": 4, "DP5": 5, "DP5alt": 5, "CK5": 5,
         "DP6": 6, "L6": 6, "DP8": 8, "AHE": 2, "ABS": 3, "ARKF": 5, "ACK": 5, "ADP5": 5, "ADP8": 8}


def num(x):
    import mpmath as mp
    import sympy as sp
    x = sp.sympify(x)
    return mp.mpf(int(x.p)) / int(x.q) if x.is_Rational else mp.mpf(str(sp.N(x, 50)))


def table(name):
    from nrpy.infrastructures.BHaH.MoLtimestepping.RK_Butcher_Table_Dictionary import generate_Butcher_tables
    T, p = generate_Butcher_tables()[name]
    nb = 2 if name in ADAPT else 1
    S = len(T) - nb
    A = [[num(v) for v in T[i][1:]] for i in range(S)]
    c = [num(T[i][0]) for i in range(S)]
    B = {r[0]: [num(v) for v in r[1:]] for r in T[S:]}
    for i in range(S):
        require(len(A[i]) <= i, f"{name}: stage {i + 1} uses stages that are not known yet")
    return A, c, B, p


# ------------------------------------------------------------- order on random polynomial systems
def order_strategy():
    from hypothesis import strategies as st

    @st.composite
    def strat(draw):
        m = draw(st.sampled_from(METHODS + ADAPT))
        n = draw(st.integers(1, 3))
        k = st.integers(-6, 6)
        mono = st.tuples(k, st.lists(st.integers(0, n), min_size=0, max_size=3))  # coefficient, factors (index n = t)
        return dict(m=m, n=n, y0=draw(st.lists(k, min_size=n, max_size=n)), t0=draw(k), f=[[[a, list(b)] for a, b in draw(st.lists(mono, min_size=1, max_size=4))] for _ in range(n)])
    return strat()


def run_order(c):
    import mpmath as mp
    mp.mp.dps = 45
    A, cc, B, p = table(c["m"])
    require(p == ORDER[c["m"]], f"{c['m']} is listed with order {p}")
    n, D = c["n"], p + 1  # keep h^0..h^p
    K = D
    zero = [mp.mpf(0)] * K

    def mul(a, b):
        r = [mp.mpf(0)] * K
        for i, x in enumerate(a):
            if x:
                for j in range(K - i):
                    if b[j]:
                        r[i + j] += x * b[j]
        return r

    def rhs(t, y):
        out = []
        for f in c["f"]:
            s = list(zero)
            for a, fac in f:
                m = [mp.mpf(a) / 4] + [mp.mpf(0)] * (K - 1)
                for q in fac:
                    m = mul(m, t if q == n else y[q])
                s = [u + v for u, v in zip(s, m)]
            out.append(s)
        return out
    t0, y0 = mp.mpf(c["t0"]) / 4, [mp.mpf(v) / 4 for v in c["y0"]]
    # exact flow, coefficient by coefficient
    ex = [[v] + [mp.mpf(0)] * (K - 1) for v in y0]
    tt = [t0, mp.mpf(1)] + [mp.mpf(0)] * (K - 2) if K > 1 else [t0]
    for k in range(K - 1):
        r = rhs(tt, ex)
        for q in range(n):
            ex[q][k + 1] = r[q][k] / (k + 1)
    ks = []
    for i in range(len(A)):
        y = [[v] + [mp.mpf(0)] * (K - 1) for v in y0]
        for j, a in enumerate(A[i]):
            if a:
                for q in range(n):
                    for e in range(1, K):
                        y[q][e] += a * ks[j][q][e - 1]
        ks.append(rhs([t0, cc[i]] + [mp.mpf(0)] * (K - 2), y))
    live = 0
    for row, b in B.items():
        pr = p if row in ("", "HO") else p - 1
        require(row in ("", "HO", "LO") and len(b) <= len(A), f"{c['m']}: unexpected weight row {row!r}")
        for q in range(n):
            for e in range(1, pr + 1):
                got = sum(b[i] * ks[i][q][e - 1] for i in range(len(b)))
                scale = sum(abs(b[i] * ks[i][q][e - 1]) for i in range(len(b))) + abs(ex[q][e]) + mp.mpf("1e-30")
                require(abs(got - ex[q][e]) <= mp.mpf("1e-13") * scale,
                        f"{c['m']} {row}: h^{e} term of component {q} is {mp.nstr(got, 12)}, exact solution has {mp.nstr(ex[q][e], 12)}")
                live += ex[q][e] != 0 and e == pr
    return c["m"] if live else None


C.add("order", order_strategy, run_order, quick=700, thorough=20000, shards=8, budget=25, rule="the exact solution has a non-zero term at the method's full order; counted by method")


def tree_cases(tier, rng):
    return [dict(m=m, q=q) for m in METHODS + ADAPT for q in range(1, ORDER[m] + 1)]


def run_trees(c):
    """All order conditions of order q (rooted trees), plus c_i = sum_j a_ij, plus the order is not higher."""
    from functools import lru_cache
    import mpmath as mp
    mp.mp.dps = 45
    A, cc, B, p = table(c["m"])
    S = len(A)
    for i in range(S):
        require(abs(sum(A[i], mp.mpf(0)) - cc[i]) < mp.mpf("1e-14"), f"{c['m']}: stage {i + 1}'s time offset is not the sum of its coefficients")

    @lru_cache(None)
    def trees(n):
        if n == 1:
            return ((),)
        out = set()

        def parts(rem, acc):
            if rem == 0:
                out.add(tuple(acc))
                return
            for k in range(1, rem + 1):
                for t in trees(k):
                    if not acc or t >= acc[-1]:
                        parts(rem - k, acc + [t])
        parts(n - 1, [])
        return tuple(sorted(out))

    size = lambda t: 1 + sum(map(size, t))

    def gamma(t):
        g = size(t)
        for s in t:
            g *= gamma(s)
        return g

    @lru_cache(None)
    def phi(t):
        v = [mp.mpf(1)] * S
        for s in t:
            w = phi(s)
            v = [v[i] * sum((A[i][j] * w[j] for j in range(len(A[i]))), mp.mpf(0)) for i in range(S)]
        return v
    for row, b in B.items():
        pr = p if row != "LO" else p - 1
        res = [abs(sum(bb * x for bb, x in zip(b, phi(t))) - mp.mpf(1) / gamma(t)) for t in trees(c["q"])]
        if c["q"] <= pr:
            require(max(res) < mp.mpf("1e-14"), f"{c['m']} {row}: an order-{c['q']} condition fails by {mp.nstr(max(res), 5)}")
    nxt = [abs(sum(bb * x for bb, x in zip(B.get("", B.get("HO")), phi(t))) - mp.mpf(1) / gamma(t)) for t in trees(p + 1)]
    require(max(nxt) > mp.mpf("1e-9"), f"{c['m']} satisfies all conditions of order {p + 1} although order {p} is stated")
    return c["m"]


C.add_list("trees", tree_cases, run_trees, shards=8, budget=40, rule="every rooted tree of every order up to the stated one")


def ab_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(order=st.integers(1, 12), poly=st.lists(st.integers(-9, 9), min_size=12, max_size=12), t0=st.integers(-3, 3)))


def run_ab(c):
    from fractions import Fraction as F
    from nrpy.infrastructures.BHaH.MoLtimestepping.RK_Butcher_Table_Dictionary import generate_Butcher_tables
    T, p = generate_Butcher_tables(generate_adams_bashforth_method=True, adams_bashforth_order=c["order"])["AB"]
    require(p == c["order"], f"Adams-Bashforth table of order {c['order']} is listed with order {p}")
    for n in range(1, c["order"] + 1):
        w = [F(int(getattr(x, "p", x)), int(getattr(x, "q", 1))) for x in T[n - 1]]
        require(len(w) == n, f"AB row {n}: {len(w)} coefficients")
        co = c["poly"][:n]  # f(t), degree n-1
        f = lambda t: sum(F(a) * t**k for k, a in enumerate(co))
        I = lambda t: sum(F(a) * t**(k + 1) / (k + 1) for k, a in enumerate(co))
        t0 = F(c["t0"])
        got = sum(w[j] * f(t0 - j) for j in range(n))
        require(got == I(t0 + 1) - I(t0), f"AB{n} integrates a polynomial of degree {n - 1} to {got}, exact {I(t0 + 1) - I(t0)}")
    return "ab" if any(c["poly"][:c["order"]]) else None


C.add("adams_bashforth", ab_strategy, run_ab, quick=80, thorough=2000, shards=4, budget=25, rule="polynomial not identically zero")


# ------------------------------------------------------------- generated timestepping code
def mol_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        infra=st.sampled_from(["BHaH", "BHaH", "superB"]), m=st.sampled_from(METHODS), ngf=st.integers(1, 3), naux=st.integers(0, 2),
        grids=st.lists(st.lists(st.integers(3, 6), min_size=3, max_size=3), min_size=1, max_size=3),
        seed=st.integers(0, 2**20), steps=st.integers(1, 3), nn=st.integers(0, 50), dt=st.integers(1, 30), fp=st.sampled_from(["double", "double", "float"]), sync=st.booleans(), omp=st.booleans()))


DEFS = r"""
void rhs_eval(const commondata_struct *commondata, const params_struct *params, int grid, const REAL *y, REAL *k);
void fill_ghosts(const params_struct *params, int grid, REAL *y);
void sync_grids(const commondata_struct *commondata, void *griddata, size_t off);
"""

DRIVER = r"""
#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
#include <stddef.h>
#define NG 1
static const int TOT_MAX = 0;
#define NT(p) ((p)->Nxx_plus_2NGHOSTS0*(p)->Nxx_plus_2NGHOSTS1*(p)->Nxx_plus_2NGHOSTS2)
static int ghost(const params_struct *p, int i) {
  int i0=i%p->Nxx_plus_2NGHOSTS0, i1=(i/p->Nxx_plus_2NGHOSTS0)%p->Nxx_plus_2NGHOSTS1, i2=i/(p->Nxx_plus_2NGHOSTS0*p->Nxx_plus_2NGHOSTS1);
  return i0<NG||i1<NG||i2<NG||i0>=p->Nxx_plus_2NGHOSTS0-NG||i1>=p->Nxx_plus_2NGHOSTS1-NG||i2>=p->Nxx_plus_2NGHOSTS2-NG;
}
static int CL(int i, int n) { return i<NG?NG:(i>=n-NG?n-NG-1:i); }
static int src(const params_struct *p, int i) {
  int n0=p->Nxx_plus_2NGHOSTS0,n1=p->Nxx_plus_2NGHOSTS1,n2=p->Nxx_plus_2NGHOSTS2;
  int i0=CL(i%n0,n0), i1=CL((i/n0)%n1,n1), i2=CL(i/(n0*n1),n2);
  return i0+n0*(i1+n1*i2);
}
static REAL *rhs_out[16];
void rhs_eval(const commondata_struct *commondata, const params_struct *params, int grid, const REAL *y, REAL *k) {
  const int n=NT(params); const REAL t=commondata->time; rhs_out[grid]=k;
  for(int g=0;g<NUM_EVOL_GFS;g++) for(int i=0;i<n;i++) if(!ghost(params,i)) {
    const REAL a=y[g*n+i], b=y[((g+1)%NUM_EVOL_GFS)*n+i-1], c=y[g*n+i+params->Nxx_plus_2NGHOSTS0];
    k[g*n+i] = (REAL)(-0.7)*a + (REAL)0.4*b*c + (REAL)0.3*a*a*b - (REAL)0.2*a*a*a + (REAL)sin(1.3*t+0.37*i+g+2*grid);
  }
}
void fill_ghosts(const params_struct *params, int grid, REAL *y) {
  const int n=NT(params);
  for(int g=0;g<NUM_EVOL_GFS;g++) for(int i=0;i<n;i++) if(ghost(params,i)) y[g*n+i] = (g%2?-1:1)*y[g*n+src(params,i)];
}
void sync_grids(const commondata_struct *commondata, void *gd, size_t off) {
  griddata_struct *griddata=(griddata_struct*)gd;
  for(int q=0;q<commondata->NUMGRIDS;q++) { /* first ghost points of grid q come from interior points of the next grid */
    params_struct *p=&griddata[q].params, *o=&griddata[(q+1)%commondata->NUMGRIDS].params;
    REAL *y=*(REAL**)((char*)&griddata[q].gridfuncs+off), *z=*(REAL**)((char*)&griddata[(q+1)%commondata->NUMGRIDS].gridfuncs+off);
    for(int g=0;g<NUM_EVOL_GFS;g++) for(int m=0;m<2;m++) { int i=p->Nxx_plus_2NGHOSTS0*p->Nxx_plus_2NGHOSTS1+p->Nxx_plus_2NGHOSTS0*(1+m); if(m && p->Nxx_plus_2NGHOSTS1<4) continue;
      y[g*NT(p)+i] = z[g*NT(o)+1+o->Nxx_plus_2NGHOSTS0*(1+o->Nxx_plus_2NGHOSTS1)]; }
  }
}
"""


def rk_reference(c, dims, rng, dt, np):
    """Textbook Runge-Kutta on the interior points with ghosts refilled at every stage."""
    A, cc, B, p = table(c["m"])
    b = [float(x) for x in B[""]]
    A = [[float(x) for x in r] for r in A]
    cc = [float(x) for x in cc]
    G = c["ngf"]
    geo = []
    for n0, n1, n2 in dims:
        i = np.arange(n0 * n1 * n2)
        i0, i1, i2 = i % n0, (i // n0) % n1, i // (n0 * n1)
        gh = (i0 < 1) | (i1 < 1) | (i2 < 1) | (i0 >= n0 - 1) | (i1 >= n1 - 1) | (i2 >= n2 - 1)
        s = np.clip(i0, 1, n0 - 2) + n0 * (np.clip(i1, 1, n1 - 2) + n1 * np.clip(i2, 1, n2 - 2))
        geo.append((i, gh, s))
    sgn = np.array([-1.0 if g % 2 else 1.0 for g in range(G)])[:, None]

    def bcs(ys):
        for y, (i, gh, s) in zip(ys, geo):
            y[:, gh] = sgn * y[:, s[gh]]
        if c["sync"]:
            for q, (n0, n1, n2) in enumerate(dims):
                o = (q + 1) % len(dims)
                for m in range(2):
                    if m and n1 < 4:
                        continue
                    ys[q][:, n0 * n1 + n0 * (1 + m)] = ys[o][:, 1 + dims[o][0] * (1 + dims[o][1])]
        return ys

    def rhs(t, ys):
        out = []
        for q, (y, (i, gh, s)) in enumerate(zip(ys, geo)):
            k = np.zeros_like(y)
            n0 = dims[q][0]
            inn = i[~gh]
            for g in range(G):
                a, bb, ccv = y[g, inn], y[(g + 1) % G, inn - 1], y[g, inn + n0]
                k[g, inn] = -0.7 * a + 0.4 * bb * ccv + 0.3 * a * a * bb - 0.2 * a**3 + np.sin(1.3 * t + 0.37 * inn + g + 2 * q)
            out.append(k)
        return out
    ys = bcs([rng.uniform(-1, 1, (G, n0 * n1 * n2)) for n0, n1, n2 in dims])
    y_init = [y.copy() for y in ys]
    for s in range(c["steps"]):
        t = (c["nn"] + s) * dt
        ks = []
        for i in range(len(A)):
            st = bcs([y + dt * sum((A[i][j] * ks[j][q] for j in range(len(A[i]))), np.zeros_like(y)) for q, y in enumerate(ys)])
            ks.append(rhs(t + cc[i] * dt, st))
        ys = bcs([y + dt * sum(b[i] * ks[i][q] for i in range(len(b))) for q, y in enumerate(ys)])
    return y_init, ys


def run_mol(c):
    import numpy as np
    import bhah
    bhah.start(c["fp"], 2)
    import nrpy.grid as gri
    gri.glb_gridfcs_dict.clear()
    gri.register_gridfunctions(["ya", "yb", "yc"][:c["ngf"]])
    gri.register_gridfunctions(["xa", "xb"][:c["naux"]], group="AUXEVOL") if c["naux"] else None
    sup = c["infra"] == "superB"
    sync = c["sync"]
    c = dict(c, sync=sync)
    rhs = "rhs_eval(commondata, params, grid, RK_INPUT_GFS, RK_OUTPUT_GFS);"
    bc = "fill_ghosts(params, grid, RK_OUTPUT_GFS);"
    if sup:
        from nrpy.infrastructures.superB import MoL
        import nrpy.infrastructures.superB.MoL as sMoL
        # the substep driver exchanges the arrays listed by generate_post_rhs_output_list()
        MoL.register_CFunctions(MoL_method=c["m"], rhs_string=rhs, post_rhs_bcs_str=bc, post_rhs_string="post_count(grid, RK_OUTPUT_GFS);")
    else:
        from nrpy.infrastructures.BHaH.MoLtimestepping import MoL
        MoL.register_CFunctions(MoL_method=c["m"], rhs_string=rhs, post_rhs_string=bc,
                                post_post_rhs_string="sync_grids(commondata, griddata, offsetof(MoL_gridfunctions_struct, RK_OUTPUT_GFS));" if sync else "")
    dims = c["grids"]
    rng = np.random.RandomState(c["seed"])
    dt = c["dt"] / 100.0
    if c["fp"] == "float":
        dt = float(np.float32(dt))
    y0, y1 = rk_reference(c, dims, rng, dt, np)
    src = ["#include <stddef.h>\n" + DRIVER]
    if sup:
        from nrpy.infrastructures.BHaH.MoLtimestepping.RK_Butcher_Table_Dictionary import generate_Butcher_tables
        BT = generate_Butcher_tables()
        S = len(BT[c["m"]][0]) - 1
        src.append("static int npost; void post_count(int grid, REAL *y) { npost++; if(isnan(y[0])) { printf(\"post update saw unfilled boundary\\n\"); exit(9);} }")
    src.append("int main(void) { commondata_struct cd; memset(&cd,0,sizeof(cd)); FILE *f=fopen(\"in.bin\",\"rb\");")
    src.append(f"cd.NUMGRIDS={len(dims)}; cd.dt=(REAL){dt!r}; cd.nn={c['nn']}; cd.nn_0={c['nn']}; cd.time=(REAL)cd.nn*cd.dt; cd.t_0=cd.time;")
    src.append(f"griddata_struct *gd=(griddata_struct*)calloc({len(dims)},sizeof(griddata_struct));")
    for q, d in enumerate(dims):
        src.append("".join(f"gd[{q}].params.Nxx_plus_2NGHOSTS{i}={d[i]};" for i in range(3)))
    src.append(f"""for(int q=0;q<{len(dims)};q++) {{ params_struct *p=&gd[q].params; const int n=NT(p);
  memset(&gd[q].gridfuncs, 0x5a, sizeof(gd[q].gridfuncs));
  MoL_malloc_y_n_gfs(&cd, p, &gd[q].gridfuncs); MoL_malloc_non_y_n_gfs(&cd, p, &gd[q].gridfuncs);
  {"MoL_malloc_diagnostic_gfs(&cd, p, &gd[q].gridfuncs); MoL_sync_data_defines(&gd[q].gridfuncs);" if sup else ""}
  for(int i=0;i<n*NUM_EVOL_GFS;i++) {{ double v; if(fread(&v,8,1,f)!=1) return 3; gd[q].gridfuncs.y_n_gfs[i]=(REAL)v; }}
  if(NUM_AUXEVOL_GFS>0) for(int i=0;i<n*NUM_AUXEVOL_GFS;i++) gd[q].gridfuncs.auxevol_gfs[i]=NAN;
  { "" if sup else "for(int i=0;i<n*NUM_EVOL_GFS;i++) { gd[q].gridfuncs.diagnostic_output_gfs[i]=NAN; if(gd[q].gridfuncs.diagnostic_output_gfs2) gd[q].gridfuncs.diagnostic_output_gfs2[i]=NAN; }"}
  {"for(int i=0;i<n*NUM_EVOL_GFS;i++) gd[q].gridfuncs.diagnostic_output_gfs[i]=NAN;" if sup else ""}
}}""")
    if sup:
        from nrpy.infrastructures.superB import MoL as sm
        src.append(f"for(int s=0;s<{c['steps']};s++) {{ const REAL t0=cd.time;")
        for k in range(1, S + 1):
            outs = [o.lower() for o in sm.generate_post_rhs_output_list(BT, c["m"], k)]
            src.append(f"MoL_step_forward_in_time(&cd, gd, t0, RK_SUBSTEP_K{k}, MOL_PRE_RK_UPDATE);")
            # the chare exchanges the boundary data of the arrays listed by generate_rhs_output_exprs() at this point:
            # they must be the ones the right-hand side has just written
            routs = [o.lower() for o in sm.generate_rhs_output_exprs(BT, c["m"], k)]
            require(len(routs) == 1, f"superB {c['m']}: substep {k} lists {len(routs)} right-hand-side outputs")
            src.append(f"for(int q=0;q<{len(dims)};q++) if(rhs_out[q] != gd[q].gridfuncs.{routs[0]}) {{ printf(\"substep {k}: the right-hand side was not written to {routs[0]}, which is the array exchanged\\n\"); return 9; }}")
            src.append(f"MoL_step_forward_in_time(&cd, gd, t0, RK_SUBSTEP_K{k}, MOL_RK_UPDATE);")
            src.append(f"MoL_step_forward_in_time(&cd, gd, t0, RK_SUBSTEP_K{k}, MOL_POST_RK_UPDATE_APPLY_BCS);")
            if sync:
                for o in outs:
                    src.append(f"sync_grids(&cd, gd, offsetof(MoL_gridfunctions_struct, {o}));")
            src.append(f"npost=0; MoL_step_forward_in_time(&cd, gd, t0, RK_SUBSTEP_K{k}, MOL_POST_RK_UPDATE); if(npost!={len(outs) * len(dims)}) {{ printf(\"post-update string ran %d times in substep {k}, expected {len(outs) * len(dims)}\\n\",npost); return 9; }}")
        src.append("cd.time=(REAL)(cd.nn+1)*cd.dt; cd.nn++; }")
    else:
        src.append(f"for(int s=0;s<{c['steps']};s++) MoL_step_forward_in_time(&cd, gd);")
    src.append('FILE *o=fopen("out.bin","wb");')
    src.append(f"""for(int q=0;q<{len(dims)};q++) {{ const int n=NT(&gd[q].params)*NUM_EVOL_GFS; for(int i=0;i<n;i++) {{ double v=gd[q].gridfuncs.y_n_gfs[i]; fwrite(&v,8,1,o); }} }}
{"for(int q=0;q<%d;q++) { int seen[NUM_EVOL_GFS+1]; memset(seen,0,sizeof(seen)); if(gd[q].gridfuncs.num_evol_gfs_to_sync!=NUM_EVOL_GFS) { printf(%s); return 9; } for(int i=0;i<NUM_EVOL_GFS;i++) { int z=gd[q].gridfuncs.evol_gfs_to_sync[i]; if(z<0||z>=NUM_EVOL_GFS||seen[z]) { printf(%s); return 9; } seen[z]=1; } }" % (len(dims), chr(34) + "number of synced gridfunctions" + chr(34), chr(34) + "synced gridfunctions" + chr(34)) if sup else ""}
fclose(o); printf("T %.17g %d %.17g\\n",(double)cd.time,cd.nn,(double)cd.dt);
for(int q=0;q<{len(dims)};q++) {{ {"MoL_free_memory_diagnostic_gfs(&gd[q].gridfuncs);" if sup else ""} MoL_free_memory_y_n_gfs(&gd[q].gridfuncs); MoL_free_memory_non_y_n_gfs(&gd[q].gridfuncs); }}
free(gd); fclose(f); return 0; }}""")
    d = vp.fresh_dir()
    np.concatenate([y.ravel() for y in y0]).tofile(os.path.join(d, "in.bin"))
    defs = DEFS + ("\n#define MOL_PRE_RK_UPDATE 0\n#define MOL_RK_UPDATE 1\n#define MOL_POST_RK_UPDATE_APPLY_BCS 2\n#define MOL_POST_RK_UPDATE 3\nvoid post_count(int grid, REAL *y);\n" if sup else "")
    exe, d = bhah.build("\n".join(src), flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] + (["-fopenmp"] if c["omp"] else []), d=d,
                        wrappers=False, extra_defines={"zz_driver": "#include <stddef.h>\n" + defs})
    r = vp.run_exe(exe, cwd=d, env={"OMP_NUM_THREADS": "3", "ASAN_OPTIONS": "detect_leaks=1"})
    require(r.returncode == 0, f"{c['infra']} {c['m']}: stepping program failed rc={r.returncode}: {r.stdout.decode()[-300:]} {r.stderr.decode(errors='replace')[:1500]}")
    out = np.fromfile(os.path.join(d, "out.bin"))
    ref = np.concatenate([y.ravel() for y in y1])
    tol = 2e-11 if c["fp"] == "double" else 5e-4
    err = np.abs(out - ref) / (1 + np.abs(ref))
    require(bool(np.all(np.isfinite(out))) and float(np.nanmax(err)) <= tol,
            f"{c['infra']} {c['m']}: after {c['steps']} steps of {dt} the state differs from Runge-Kutta by {np.nanmax(np.where(np.isfinite(err), err, np.nan)) if np.isfinite(err).any() else 'NaN'} (non-finite: {int((~np.isfinite(out)).sum())} of {out.size})")
    t = r.stdout.decode().split()
    nn = c["nn"] + c["steps"]
    require(int(t[2]) == nn, f"{c['m']}: step counter {t[2]} after {c['steps']} steps from {c['nn']}")
    require(abs(float(t[1]) - nn * dt) <= (1e-13 if c["fp"] == "double" else 1e-5) * (1 + nn * dt), f"{c['m']}: time {t[1]} after step {nn} of size {dt}")
    return f"{c['infra']}/{c['m']}"


C.add("mol", mol_strategy, run_mol, quick=72, thorough=1500, shards=8, budget=30, rule="every case: random grids, method and data; counted by infrastructure/method")


def mol_all_cases(tier, rng):
    out = []
    for infra in ("BHaH", "superB"):
        for m in METHODS:
            for rep in range(1 if tier == "quick" else 6):
                out.append(dict(infra=infra, m=m, ngf=rng.randint(1, 3), naux=rng.randint(0, 2), grids=[[rng.randint(3, 6) for _ in range(3)] for _ in range(rng.randint(1, 3))],
                                seed=rng.randint(0, 10**6), steps=rng.randint(1, 3), nn=rng.randint(0, 50), dt=rng.randint(1, 30), fp="double", sync=rng.random() < 0.5, omp=rng.random() < 0.5))
    return out


C.add_list("mol_all", mol_all_cases, run_mol, shards=8, budget=60, rule="every method on both infrastructures")

if __name__ == "__main__":
    sys.exit(C.main())
