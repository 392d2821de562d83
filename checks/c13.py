#!/usr/bin/env python3
"""C13: curvilinear boundary conditions fill every ghost point with the right value."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Violation, require

C = vp.Check("C13", assumptions=[
    "axis/origin identifications of each coordinate family restated as integer index maps",
    "at edges and corners of outer faces any one of the outward directions may be used",
    "the radiation condition is checked on polynomial data, on which every stencil of the requested order is exact",
])

NAMES = ["s", "aU0", "aU1", "aU2", "bD0", "bD1", "bD2", "hDD00", "hDD01", "hDD02", "hDD11", "hDD12", "hDD22"]
PAR = [0, 1, 2, 3, 1, 2, 3, 4, 5, 6, 7, 8, 9]


def family(s):
    if "Cartesian" in s:
        return "cart"
    if "Wedge" in s:
        return "wedge"
    if "RingHoley" in s:
        return "ring"
    if "Holey" in s:
        return "holey"
    if "Spherical" in s:
        return "sph"
    if "Cylindrical" in s:
        return "cyl"
    return "tp"


def index_map(fam, N, NG, i):
    """Ghost index triple -> (source triple, vector signs), or itself for an outer point."""
    j = [i[k] - NG for k in range(3)]
    sg = [1, 1, 1]

    def flip(*ks):
        for k in ks:
            sg[k] = -sg[k]
    if fam in ("cart", "wedge"):
        return tuple(i), sg
    if fam == "cyl":
        if j[0] < 0:
            j[0] = -1 - j[0]
            j[1] += N[1] // 2
            flip(0, 1)
        j[1] %= N[1]
    elif fam == "ring":
        j[2] %= N[2]
    else:
        if fam == "sph" and j[0] < 0:
            j[0] = -1 - j[0]
            j[1] = N[1] - 1 - j[1]
            j[2] += N[2] // 2
            flip(0, 2)
        if fam == "tp" and j[0] < 0:
            j[0] = -1 - j[0]
            j[2] += N[2] // 2
            flip(0, 2)
        while not 0 <= j[1] < N[1]:
            j[1] = -1 - j[1] if j[1] < 0 else 2 * N[1] - 1 - j[1]
            j[2] += N[2] // 2
            flip(1, 2)
        j[2] %= N[2]
    return tuple(a + NG for a in j), sg


def parity10(sg):
    return [1] + sg + [sg[0] ** 2, sg[0] * sg[1], sg[0] * sg[2], sg[1] ** 2, sg[1] * sg[2], sg[2] ** 2]


def sizes(s, NG, rng):
    fam = family(s)
    big = [3, 4, 5, 6, 7, 9]
    N = [rng.choice(big) for _ in range(3)]
    if fam in ("sph", "holey", "tp"):
        N[1] = rng.choice([1, 2, 3, 4, 5, 8])
        N[2] = rng.choice([2, 4, 6, 8])
        if fam == "holey":
            N[0] = max(N[0], 4 * NG)
    elif fam == "cyl":
        N[1] = rng.choice([2, 4, 6, 8])
    elif fam == "ring":
        N[0], N[1], N[2] = max(N[0], 4 * NG), max(3, rng.randint(2 * NG, 2 * NG + 4)), rng.choice([1, 2, 3, 4, 5])
    elif fam == "wedge":
        N = [max(N[0], 4 * NG), max(3, rng.randint(2 * NG, 2 * NG + 4)), max(3, rng.randint(NG, NG + 4))]
    return N


def cases(tier, rng):
    from coords import SYSTEMS, param_names
    out = []
    for rep in range(1 if tier == "quick" else 16):
        for s in SYSTEMS:
            fd = rng.choice([2, 4, 4, 6, 8] if rep else [2, 4, 4, 6])
            up = rng.choice([True, False])
            NG = fd // 2 + (1 if up else 0)
            gs = []
            for _ in range(6 if tier == "quick" else 12):
                pv = {n: round(rng.uniform(0.15, 0.9), 4) if n.startswith("SINHW") else round(rng.uniform(0.05, 0.6), 4) if "slope" in n else round(rng.uniform(0.3, 2.5), 4) for n in param_names(s)
                      if n.startswith("SINHW") or "slope" in n or n == "bScale"}
                if "Holey" in s or "Wedge" in s:
                    pv["SINHW"] = round(rng.uniform(0.4, 0.9), 4)
                gs.append(dict(N=sizes(s, NG, rng), size=round(rng.uniform(4, 20), 3), hole=round(rng.uniform(2.4, 3.2), 3), pv=pv, seed=rng.randint(0, 10 ** 9)))
            names = ["s", "aU", "bD", "hDD"]
            rng.shuffle(names)
            out.append(dict(coord=s, other=rng.choice([None] * 30 + [x for x in SYSTEMS if x != s]), fd=fd, up=up, rad=rng.choice([2, 2, 4, 6]), fp=rng.choice(["double", "double", "float"]), grids=gs,
                            gfs=sorted(set(names[:rng.randint(1, 3)] + ["hDD"]), key=names.index), threads=rng.choice([1, 3])))
    return out


def build(c):
    import bhah
    import nrpy.params as par
    s = c["coord"]
    bhah.start(c["fp"], c["fd"], None)
    from nrpy.infrastructures.BHaH import numerical_grids_and_timestep as ng
    from nrpy.infrastructures.BHaH.CurviBoundaryConditions import CurviBoundaryConditions as cb
    import nrpy.grid as gri
    for n, t, v in (("dt", "REAL", 0.1), ("time", "REAL", 0.0), ("t_0", "REAL", 0.0), ("nn", "int", 0), ("nn_0", "int", 0), ("t_final", "REAL", 1.0), ("CFL_FACTOR", "REAL", 0.5)):
        if n not in par.glb_code_params_dict:
            par.register_CodeParameter(t, "t", n, v, commondata=True)
    if "NUMGRIDS" not in par.glb_code_params_dict:
        par.register_CodeParameter("int", "t", "NUMGRIDS", 1, commondata=True)
    sysl = [s] + ([c["other"]] if c["other"] else [])
    for g in c["gfs"]:
        if g == "s":
            gri.register_gridfunctions("s", group="EVOL")
        elif g == "hDD":
            gri.register_gridfunctions_for_single_rank2(g, symmetry="sym01", group="EVOL")
        else:
            gri.register_gridfunctions_for_single_rank1(g, group="EVOL")
    gri.register_gridfunctions("xtra", group="AUX")
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        cb.CurviBoundaryConditions_register_C_functions(sysl, radiation_BC_fd_order=c["rad"])
        ng.register_CFunctions(list_of_CoordSystems=sysl, list_of_grid_physical_sizes=[10.0] * len(sysl), Nxx_dict={x: [4, 4, 4] for x in sysl}, enable_set_cfl_timestep=False)
    pnames = sorted({n for g in c["grids"] for n in g["pv"]})
    sets = "\n".join(f'    if(scanf("%lf", &tmp) != 1) return 3; params.{n} = tmp;' for n in pnames)
    main = f"""#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
int main() {{
  commondata_struct commondata; commondata_struct_set_to_default(&commondata);
  int Nx[3], mode; double tmp;
  while(scanf("%d %d %d %d", &mode, &Nx[0], &Nx[1], &Nx[2]) == 4) {{
    params_struct params; params_struct_set_to_default(&commondata, (griddata_struct[1]){{0}});
    griddata_struct gd[2]; commondata.NUMGRIDS = 1; params_struct_set_to_default(&commondata, gd); params = gd[0].params;
    strcpy(params.CoordSystemName, "{s}"); params.CoordSystem_hash = {s.upper()};
    params.grid_physical_size = 0;
    if(scanf("%lf", &tmp) != 1) return 3;  params.grid_physical_size = tmp;
    if(scanf("%lf", &tmp) != 1) return 3;  params.grid_hole_radius = tmp;
{sets}
    REAL *xx[3];
    numerical_grid_params_Nxx_dxx_xx(&commondata, &params, xx, Nx, true);
    const int ntot = params.Nxx_plus_2NGHOSTS0 * params.Nxx_plus_2NGHOSTS1 * params.Nxx_plus_2NGHOSTS2, M = ntot * NUM_EVOL_GFS;
    REAL *gfs = malloc(sizeof(REAL) * M), *rhs = malloc(sizeof(REAL) * M), ws[NUM_EVOL_GFS], fi[NUM_EVOL_GFS];
    getchar();
    double *buf = malloc(sizeof(double) * M);
    if(fread(buf, 8, M, stdin) != M) return 4; for(int i=0;i<M;i++) gfs[i] = buf[i];
    if(fread(buf, 8, M, stdin) != M) return 4; for(int i=0;i<M;i++) rhs[i] = buf[i];
    if(fread(buf, 8, NUM_EVOL_GFS, stdin) != NUM_EVOL_GFS) return 4; for(int i=0;i<NUM_EVOL_GFS;i++) ws[i] = buf[i];
    if(fread(buf, 8, NUM_EVOL_GFS, stdin) != NUM_EVOL_GFS) return 4; for(int i=0;i<NUM_EVOL_GFS;i++) fi[i] = buf[i];
    bc_struct bc; bcstruct_set_up(&commondata, &params, xx, &bc);
    if(mode == 0) apply_bcs_outerextrap_and_inner(&commondata, &params, &bc, gfs);
    if(mode == 1) apply_bcs_inner_only(&commondata, &params, &bc, gfs);
    if(mode == 2) apply_bcs_outerradiation_and_inner(&commondata, &params, &bc, xx, ws, fi, gfs, rhs);
    for(int i=0;i<M;i++) buf[i] = gfs[i]; fwrite(buf, 8, M, stdout);
    for(int i=0;i<M;i++) buf[i] = rhs[i]; fwrite(buf, 8, M, stdout);
    free(bc.inner_bc_array); for(int q=0;q<3*NGHOSTS;q++) free(bc.pure_outer_bc_array[q]);
    for(int i=0;i<3;i++) free(xx[i]);
    free(gfs); free(rhs); free(buf);
  }}
  return 0;
}}
"""
    exe, d = bhah.build(main, flags=["-O1", "-fopenmp", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], upwind=c["up"])
    return exe, pnames


def run(c):
    import numpy as np
    import random
    from mpmath import mp, mpf
    from coords import Geometry, domain, param_names
    mp.dps = 25
    exe, pnames = build(c)
    s, fam, NG = c["coord"], family(c["coord"]), c["fd"] // 2 + (1 if c["up"] else 0)
    from nrpy.grid import BHaHGridFunction
    order = [NAMES.index(n) for n in BHaHGridFunction.gridfunction_lists()[0]]
    ngf = len(order)
    require(sorted(order) == sorted(NAMES.index(n) for n in NAMES if n.rstrip("012") in c["gfs"]), "registered gridfunctions differ from the requested ones")
    dt = np.float64 if c["fp"] == "double" else np.float32
    eps = float(np.finfo(dt).eps)
    tags = set()
    for g in c["grids"]:
        N = g["N"]
        P = {n: g["pv"].get(n) for n in param_names(s)}
        for n in P:
            if P[n] is None:
                P[n] = g["hole"] if n == "RMIN" else -g["size"] if n in ("xmin", "ymin", "zmin", "ZMIN") else g["size"]
        lo, hi = domain(s, P)
        dx = [(hi[k] - lo[k]) / N[k] for k in range(3)]
        if fam in ("holey", "ring", "wedge") and lo[0] - NG * dx[0] <= 0:
            continue
        T = [n + 2 * NG for n in N]
        outdirs = [k for k in range(3) if fam in ("cart", "wedge") or (fam == "cyl" and k != 1) or (fam == "ring" and k != 2) or k == 0]
        idx = [(a, b, e) for a in range(T[0]) for b in range(T[1]) for e in range(T[2])]
        kind = {}
        for i in idx:
            if all(NG <= i[k] < NG + N[k] for k in range(3)):
                kind[i] = ("int", None, None)
            else:
                m, sg = index_map(fam, N, NG, i)
                kind[i] = ("out", None, None) if m == i else ("inn", m, parity10(sg))
        rng = np.random.default_rng(g["seed"])
        interior = np.zeros(T, bool)
        interior[tuple(slice(NG, NG + n) for n in N)] = True
        isout = np.zeros(T, bool)
        for i in idx:
            isout[i] = kind[i][0] == "out"

        def call(mode, gf, rhs, ws, fi):
            hdr = f"{mode} {N[0]} {N[1]} {N[2]} {g['size']!r} {g['hole']!r}" + "".join(" " + repr(g["pv"][n]) for n in pnames) + "\n"
            pack = lambda A: np.transpose(A, (0, 3, 2, 1)).astype(np.float64).tobytes()
            r = vp.run_exe(exe, input=hdr.encode() + pack(gf) + pack(rhs) + np.array(ws).tobytes() + np.array(fi).tobytes(), env={"OMP_NUM_THREADS": str(c["threads"])})
            require(r.returncode == 0, f"{s} N={N} NGHOSTS={NG}: boundary-condition program failed rc={r.returncode}: {r.stderr.decode(errors='replace')[:1200]} {r.stdout[-300:]!r}")
            z = np.frombuffer(r.stdout, np.float64)
            require(z.size == 2 * ngf * T[0] * T[1] * T[2], f"{s}: unexpected output {r.stdout[:300]!r}")
            z = z.reshape(2, ngf, T[2], T[1], T[0]).transpose(0, 1, 4, 3, 2)
            return z[0], z[1]

        shp = [ngf] + T
        rnd = lambda: rng.uniform(-2, 2, shp).astype(dt).astype(np.float64)
        where = f"{s} N={N} NGHOSTS={NG} {c['fp']}"

        def inner(A, what, zero_nan=False):
            for i in idx:
                if kind[i][0] == "inn":
                    for q, gfk in enumerate(order):
                        want = kind[i][2][PAR[gfk]] * A[(q,) + kind[i][1]]
                        got = A[(q,) + i]
                        require(got == want, f"{where}: {what} of {NAMES[gfk]} at inner ghost {i} is {got}, want {want} (parity {kind[i][2][PAR[gfk]]} times the value at {kind[i][1]})")

        # --- extrapolation
        f0 = rnd()
        f = np.where(interior, f0, np.nan)
        A, B = call(0, f, rnd(), [1.0] * ngf, [0.0] * ngf)
        require(np.array_equal(A[:, interior], f0[:, interior]), f"{where}: applying boundary conditions changed interior points")
        require(np.isfinite(A).all(), f"{where}: ghost points left unfilled, e.g. {[i for i in idx if not np.isfinite(A[(slice(None),) + i]).all()][:3]}")
        for i in idx:
            if kind[i][0] != "out":
                continue
            cands = []
            for k in range(3):
                if not NG <= i[k] < NG + N[k]:
                    st = 1 if i[k] < NG else -1
                    p = [tuple(i[m] + (st * w if m == k else 0) for m in range(3)) for w in (1, 2, 3)]
                    u = [A[(slice(None),) + z] for z in p]
                    cands.append((3 * u[0] - 3 * u[1] + u[2], 3 * abs(u[0]) + 3 * abs(u[1]) + abs(u[2])))
            got = A[(slice(None),) + i]
            require(any((abs(got - w) <= 20 * eps * (sc + 1)).all() for w, sc in cands), f"{where}: outer ghost {i} is {list(got[:3])}, want quadratic extrapolation {[list(w[:3]) for w, _ in cands]}")
        inner(A, "extrapolated field")
        # --- inner only
        f = rnd()
        A, _ = call(1, f, rnd(), [1.0] * ngf, [0.0] * ngf)
        keep = interior | isout
        require(np.array_equal(A[:, keep], f[:, keep]), f"{where}: apply_bcs_inner_only changed points other than inner ghosts")
        inner(A, "field")
        # --- radiation
        if min(T[k] for k in range(3)) >= c["rad"] + 2:
            x = [np.array([float((mpf(m) - NG + mpf(1) / 2) / N[k]) for m in range(T[k])]) for k in range(3)]   # unit coordinate
            deg = c["rad"]
            co = rng.uniform(-1, 1, (ngf, 3, deg + 1))
            pol = lambda q, k, y: sum(co[q, k, m] * y ** m for m in range(deg + 1))
            dpol = lambda q, k, y: sum(m * co[q, k, m] * y ** (m - 1) for m in range(1, deg + 1))
            f = np.array([pol(q, 0, x[0])[:, None, None] * pol(q, 1, x[1])[None, :, None] * pol(q, 2, x[2])[None, None, :] for q in range(ngf)])
            f = f.astype(dt).astype(np.float64)
            rh = np.where(interior, rnd(), np.nan)
            ws, fi = [round(float(v), 3) for v in rng.uniform(0.5, 2, ngf)], [round(float(v), 3) for v in rng.uniform(-1, 1, ngf)]
            A, R = call(2, f, rh, ws, fi)
            require(np.array_equal(A, f), f"{where}: radiation conditions modified the fields")
            require(np.array_equal(R[:, interior], rh[:, interior]), f"{where}: radiation conditions changed interior right-hand sides")
            require(np.isfinite(R).all(), f"{where}: ghost right-hand sides left unfilled")
            fmax = abs(f).max(axis=(1, 2, 3))

            def wave(i):
                """-c (d_r f + (f - finf)/r), its noise scale, and r."""
                xx = [lo[k] + (mpf(i[k] - NG) + mpf(1) / 2) * dx[k] for k in range(3)]
                G = Geometry(s, P, xx, N=1)
                X = [q.v for q in G.X]
                r = mp.sqrt(sum(q * q for q in X))
                dr = [float(sum(G.Ji[k][a].v * X[a] for a in range(3)) / r / (hi[k] - lo[k])) for k in range(3)]   # per unit coordinate
                axis = 1 if fam == "cart" else float(r * r / max(X[0] ** 2 + X[1] ** 2, mpf(1e-30)))   # angles are computed from z/r
                r = float(r)
                u = [x[k][i[k]] for k in range(3)]
                val, noise = [], []
                for q in range(ngf):
                    pk = [pol(q, k, u[k]) for k in range(3)]
                    d = sum(dr[k] * dpol(q, k, u[k]) * pk[(k + 1) % 3] * pk[(k + 2) % 3] for k in range(3))
                    val.append(-ws[q] * (d + (f[(q,) + i] - fi[q]) / r))
                    noise.append(ws[q] * (sum(abs(dr[k]) * N[k] for k in range(3)) * fmax[q] * (10 if deg < 6 else 60) * (1 + axis) + (fmax[q] + 2) / r))
                return np.array(val), np.array(noise), r
            pts = [i for i in idx if kind[i][0] == "out"]
            edge = [i for i in pts if sum(not NG <= i[k] < NG + N[k] for k in range(3)) > 1]
            pr = random.Random(g["seed"])
            pts = pr.sample(pts, min(25, len(pts))) + pr.sample(edge, min(10, len(edge)))
            for i in pts:
                v, nz, r = wave(i)
                ok, wants = False, []
                for k in range(3):
                    if not NG <= i[k] < NG + N[k]:
                        st = 1 if i[k] < NG else -1
                        ii = tuple(i[m] + (st if m == k else 0) for m in range(3))
                        vi, nzi, ri = wave(ii)
                        t = R[(slice(None),) + ii]
                        w = v + (ri / r) ** 3 * (t - vi)
                        tol = 40 * eps * (nz + (ri / r) ** 3 * (abs(t) + nzi)) * 10
                        wants.append(w)
                        ok = ok or bool((abs(R[(slice(None),) + i] - w) <= tol).all())
                require(ok, f"{where} radiation order {deg}: RHS at outer ghost {i} (r={r:.6g}) is {[float(v) for v in R[(slice(None),) + i][:4]]}, want one of {[[float(v) for v in w[:4]] for w in wants]}")
            inner(R, "radiation RHS")
        tags.add(fam)
    return c["coord"] if tags else None


C.add_list("bcs", cases, run, shards=8, budget=120, budget_thorough=1800,
           rule="17 systems x random grid sizes (down to the smallest meaningful), resolutions parameters, ghost widths, precisions, subsets of gridfunctions of every parity; ghosts start as NaN; C built with ASan/UBSan")

if __name__ == "__main__":
    sys.exit(C.main())
