#!/usr/bin/env python3
"""C08: basis transformations and the generated coordinate/grid routines agree with the geometry."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Violation, require

C = vp.Check("C08", assumptions=[
    "coordinate maps restated in lib/coords.py",
    "nearest-gridpoint indices are compared only where rounding cannot decide the cell",
])
_F = {}


def syms(n):
    import sympy as sp
    return [sp.Symbol(f"v{i}") for i in range(n)]


def transforms(coord):
    """name -> (rank, dim, lambdified callable)."""
    if coord in _F:
        return _F[coord]
    import sympy as sp
    import nr
    from coords import param_names
    nr.reset()
    import nrpy.helpers.jacobians as jac
    import nrpy.reference_metric as rm
    rm.reference_metric.clear()
    args = [sp.Symbol(n) for n in ["xx0", "xx1", "xx2"] + param_names(coord)]
    out = {}
    spec = dict(basis_transform_vectorU_from_rfmbasis_to_Cartesian=(1, 3), basis_transform_vectorD_from_rfmbasis_to_Cartesian=(1, 3),
                basis_transform_tensorDD_from_rfmbasis_to_Cartesian=(2, 3), basis_transform_vectorU_from_Cartesian_to_rfmbasis=(1, 3),
                basis_transform_vectorD_from_Cartesian_to_rfmbasis=(1, 3), basis_transform_tensorDD_from_Cartesian_to_rfmbasis=(2, 3),
                basis_transform_4tensorUU_from_time_indep_rfmbasis_to_Cartesian=(2, 4), basis_transform_4tensorUU_from_Cartesian_to_time_indep_rfmbasis=(2, 4))
    for nme, (rank, dim) in spec.items():
        V = syms(dim ** rank)
        src = V if rank == 1 else [V[dim * i:dim * i + dim] for i in range(dim)]
        keep = list(src) if rank == 1 else [list(r) for r in src]
        res = getattr(jac, nme)(coord, src)
        require(src == keep, f"{nme} modified its input")
        flat = list(res) if rank == 1 else [x for r in res for x in r]
        require(len(flat) == dim ** rank, f"{nme} returned the wrong shape")
        ren = {s: sp.Symbol(str(s)) for e in flat for s in sp.sympify(e).free_symbols}
        flat = [sp.sympify(e).xreplace(ren) for e in flat]
        out[nme] = (rank, dim, sp.lambdify(args + V, flat, modules="mpmath", cse=True))
    _F[coord] = out
    return out


def bcases(tier, rng):
    from coords import SYSTEMS, random_params, random_point
    out = []
    lanes = [[] for _ in range(8)]
    for i, s in enumerate(SYSTEMS):
        for _ in range(10 if tier == "quick" else 150):
            p = random_params(s, rng)
            lanes[i % 8].append(dict(coord=s, p=p, xx=random_point(s, p, rng), v=[rng.randint(-20, 20) for _ in range(16)]))
    m = max(map(len, lanes))
    return [L[j] if j < len(L) else dict(coord=None) for j in range(m) for L in lanes]


def run_b(c):
    if c["coord"] is None:
        return None
    from mpmath import mp, mpf
    from coords import Geometry, param_names
    mp.dps = 40
    tr = transforms(c["coord"])
    xx = [mpf(x) for x in c["xx"]]
    G = Geometry(c["coord"], c["p"], xx, N=1)
    R = range(3)
    J = [[G.J[i][j].v for j in R] for i in R]
    Ji = [[G.Ji[i][j].v for j in R] for i in R]
    J4 = [[mpf(1 if a == b == 0 else 0) if a == 0 or b == 0 else J[a - 1][b - 1] for b in range(4)] for a in range(4)]
    J4i = [[mpf(1 if a == b == 0 else 0) if a == 0 or b == 0 else Ji[a - 1][b - 1] for b in range(4)] for a in range(4)]
    T = lambda M: [list(z) for z in zip(*M)]
    base = xx + [mpf(c["p"][n]) for n in param_names(c["coord"])]
    for nme, (rank, dim, f) in tr.items():
        v = [mpf(q) for q in c["v"][:dim ** rank]]
        got = f(*base, *v)
        toCart = "_to_Cartesian" in nme
        upper = "vectorU" in nme or "UU" in nme
        M = (J4 if toCart else J4i) if dim == 4 else (J if toCart else Ji)
        if not upper:
            M = T(Ji if toCart else J)
        if rank == 1:
            want = [sum(M[i][k] * v[k] for k in range(dim)) for i in range(dim)]
        else:
            want = [sum(M[i][k] * M[j][l] * v[dim * k + l] for k in range(dim) for l in range(dim)) for i in range(dim) for j in range(dim)]
        sc = max(abs(a) for r in M for a in r) ** rank * 100
        for k, (a, b) in enumerate(zip(got, want)):
            require(abs(a - b) <= mpf(10) ** -22 * (1 + sc + abs(b)), f"{nme}({c['coord']}) component {k} at xx={c['xx']}: {mp.nstr(a, 15)}, want {mp.nstr(b, 15)}")
    return "asym" if any(c["v"]) else None


C.add_list("bases", bcases, run_b, shards=8, budget=50, budget_thorough=900,
           rule="17 systems x random parameters, points and integer tensor components (no symmetry assumed); non-trivial: nonzero components")


# -------------------------------------------------------------------------- generated C
def gcases(tier, rng):
    from coords import SYSTEMS, random_params
    out = []
    for s in SYSTEMS:
        for _ in range(2 if tier == "quick" else 8):
            out.append(dict(coords=[s], p={s: random_params(s, rng)}, N={s: [rng.choice([2, 3, 4, 6, 9]) for _ in range(3)]}, size=[round(rng.uniform(2, 20), 3)], hole=round(rng.uniform(0.1, 1.5), 3),
                            org=[round(rng.uniform(-3, 3), 3) for _ in range(3)], cf=rng.choice([1, 1, 2, 1.5, 3]), fd=rng.choice([2, 4, 6]), up=rng.choice([True, False]),
                            fp=rng.choice(["double", "double", "float"]), override=rng.choice([None, None, [rng.randint(2, 7) for _ in range(3)]]),
                            center=rng.choice(["local_grid_center", "local_grid_center", "global_grid_center"]), seed=rng.randint(0, 10 ** 6), cfl=round(rng.uniform(0.1, 1), 3)))
    for _ in range(8 if tier == "quick" else 60):
        k = rng.randint(2, 4)
        ss = rng.sample(SYSTEMS, k)
        c = dict(out[0], coords=ss, p={s: random_params(s, rng) for s in ss}, N={s: [rng.choice([2, 3, 4, 5]) for _ in range(3)] for s in ss},
                 size=[round(rng.uniform(2, 20), 3) for _ in ss], org=[round(rng.uniform(-3, 3), 3) for _ in range(3)], seed=rng.randint(0, 10 ** 6), override=None, fp="double",
                 center="local_grid_center")
        out.append(c)
    return out


def run_g(c):
    import random
    from mpmath import mp, mpf
    import bhah
    import coords
    from coords import Geometry, cart, domain, param_names
    from jet import Jet
    mp.dps = 30
    bhah.start(c["fp"], c["fd"], None)
    import nrpy.params as par
    from nrpy.infrastructures.BHaH import numerical_grids_and_timestep as ng
    from nrpy.infrastructures.BHaH import xx_tofrom_Cart as xc
    from nrpy.infrastructures.BHaH.MoLtimestepping import MoL
    import nrpy.grid  # noqa
    if "CFL_FACTOR" not in par.glb_code_params_dict:
        par.register_CodeParameter("REAL", "t", "CFL_FACTOR", c["cfl"], commondata=True)
    par.adjust_CodeParam_default("CFL_FACTOR", c["cfl"])
    for n, t, v in (("dt", "REAL", 0.1), ("time", "REAL", 0.0), ("t_0", "REAL", 0.0), ("nn", "int", 0), ("nn_0", "int", 0), ("t_final", "REAL", 1.0)):
        if n not in par.glb_code_params_dict:
            par.register_CodeParameter(t, "t", n, v, commondata=True)
    if "NUMGRIDS" not in par.glb_code_params_dict:
        par.register_CodeParameter("int", "t", "NUMGRIDS", len(c["coords"]), commondata=True)
    ng.register_CFunctions(list_of_CoordSystems=c["coords"], list_of_grid_physical_sizes=c["size"], Nxx_dict=c["N"])
    for s in c["coords"]:
        xc.register_CFunction_xx_to_Cart(s)
        if "v2n" not in s:
            xc.register_CFunction__Cart_to_xx_and_nearest_i0i1i2(s, relative_to=c["center"])
    inv = any("v2n" not in s for s in c["coords"])
    sfx = "_global_grid_center" if c["center"] == "global_grid_center" else ""
    # parameters not tied to grid_physical_size / grid_hole_radius are set as defaults
    ngrids = len(c["coords"])
    NG = c["fd"] // 2 + (1 if c["up"] else 0)
    rng = random.Random(c["seed"])
    # shared names between systems must agree: one value per name
    vals = {}
    for s in c["coords"]:
        for n, v in c["p"][s].items():
            vals.setdefault(n, v)
    for n in list(vals):
        if n in par.glb_code_params_dict:
            par.adjust_CodeParam_default(n, vals[n])
    par.adjust_CodeParam_default("grid_hole_radius", c["hole"])
    for n, v in zip(("Cart_originx", "Cart_originy", "Cart_originz"), c["org"]):
        par.adjust_CodeParam_default(n, v)
    ov = c["override"]
    setup = "numerical_grids_and_timestep(&commondata, griddata, true);"
    if ov:
        setup += f"""{{ const int Nx[3] = {{{ov[0]}, {ov[1]}, {ov[2]}}}; for(int i=0;i<3;i++) free(griddata[0].xx[i]);
 numerical_grid_params_Nxx_dxx_xx(&commondata, &griddata[0].params, griddata[0].xx, Nx, true); }}"""
    pts = []
    for gi, s in enumerate(c["coords"]):
        if "v2n" in s:
            continue
        pp = effective(s, vals, c["size"][gi], c["hole"])
        for _ in range(25):
            x = coords.random_point(s, pp, rng)
            X = [q.v for q in cart(s, pp, [Jet.const(3, 0, mpf(t)) for t in x])]
            o = c["org"] if c["center"] == "local_grid_center" else [0, 0, 0]
            pts.append((gi, s, x, [float(a + mpf(b)) for a, b in zip(X, o)]))
    calls = "".join(f"{{ REAL X[3] = {{{p[3][0]!r}, {p[3][1]!r}, {p[3][2]!r}}}, x[3]; int ii[3]; Cart_to_xx_and_nearest_i0i1i2{sfx}(&commondata, &griddata[{p[0]}].params, X, x, ii); printf(\"P {k} %.17g %.17g %.17g %d %d %d\\n\", (double)x[0], (double)x[1], (double)x[2], ii[0], ii[1], ii[2]); }}\n" for k, p in enumerate(pts))
    main = f"""#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
int main() {{
  commondata_struct commondata; commondata_struct_set_to_default(&commondata);
  commondata.convergence_factor = {c['cf']}; commondata.NUMGRIDS = {ngrids};
  griddata_struct griddata[{ngrids}];
  {setup}
  for(int g=0; g<{ngrids}; g++) {{
    params_struct *p = &griddata[g].params;
    printf("G %d %d %d %d %d %d %d %s\\n", g, p->Nxx0, p->Nxx1, p->Nxx2, p->Nxx_plus_2NGHOSTS0, p->Nxx_plus_2NGHOSTS1, p->Nxx_plus_2NGHOSTS2, p->CoordSystemName);
    printf("D %d %.17g %.17g %.17g %.17g %.17g %.17g\\n", g, (double)p->dxx0, (double)p->dxx1, (double)p->dxx2, (double)p->invdxx0, (double)p->invdxx1, (double)p->invdxx2);
    int n[3] = {{p->Nxx_plus_2NGHOSTS0, p->Nxx_plus_2NGHOSTS1, p->Nxx_plus_2NGHOSTS2}};
    for(int i=0;i<3;i++) for(int j=0;j<n[i];j++) printf("X %d %d %d %.17g\\n", g, i, j, (double)griddata[g].xx[i][j]);
    for(int k=0;k<n[2];k++) for(int j=0;j<n[1];j++) for(int i=0;i<n[0];i++) if((i*7+j*5+k*3) % 11 == 0) {{
      REAL xC[3]; xx_to_Cart(&commondata, p, griddata[g].xx, i, j, k, xC);
      printf("C %d %d %d %d %.17g %.17g %.17g\\n", g, i, j, k, (double)xC[0], (double)xC[1], (double)xC[2]); }}
  }}
  {calls}
  printf("T %.17g %d\\n", (double)commondata.dt, commondata.NUMGRIDS);
  for(int g=0; g<{ngrids}; g++) for(int i=0;i<3;i++) free(griddata[g].xx[i]);
  return 0;
}}
"""
    exe, d = bhah.build(main, flags=["-O1", "-fopenmp", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], upwind=c["up"])
    r = vp.run_exe(exe, env={"OMP_NUM_THREADS": "2"})
    require(r.returncode == 0, f"{c['coords']}: grid program failed rc={r.returncode}: {r.stderr.decode(errors='replace')[:1500]}")
    tol = mpf(1e-12) if c["fp"] == "double" else mpf(2e-4)

    def eq(a, b, sc, what):
        require(abs(mpf(a) - b) <= tol * (abs(b) + sc), f"{c['coords']} {what}: {a}, want {mp.nstr(b, 15)}")

    grids, dsmin, done = {}, mpf(1e30), 0
    for gi, s in enumerate(c["coords"]):
        pp = effective(s, vals, c["size"][gi], c["hole"])
        lo, hi = domain(s, pp)
        N0 = ov if (ov and gi == 0) else c["N"][s]
        N = [n if n == 2 else int(n * c["cf"]) for n in N0]
        dx = [(hi[i] - lo[i]) / N[i] for i in range(3)]
        grids[gi] = (s, pp, lo, hi, N, dx)
        Nd = [n if n == 2 else int(n * c["cf"]) for n in c["N"][s]]
        dxd = [(hi[i] - lo[i]) / Nd[i] for i in range(3)]
        # CFL: dt = CFL * smallest proper grid spacing over all points, ghosts included
        for k in range(Nd[2] + 2 * NG):
            if "Cartesian" not in s and k > 0 and "Cylindrical" not in s:
                break
            for j in range(Nd[1] + 2 * NG):
                for i in range(Nd[0] + 2 * NG):
                    x = [lo[q] + (mpf(z - NG) + mpf(1) / 2) * dxd[q] for q, z in enumerate((i, j, k))]
                    for q, h in enumerate(scale(s, pp, x)):
                        dsmin = min(dsmin, abs(h) * dxd[q])
    for line in r.stdout.decode().splitlines():
        t = line.split()
        if t[0] == "G":
            s, pp, lo, hi, N, dx = grids[int(t[1])]
            require([int(q) for q in t[2:8]] == N + [n + 2 * NG for n in N], f"{s}: grid sizes {t[2:8]}, want {N} plus {2 * NG} ghosts (convergence factor {c['cf']})")
            require(t[8] == s, f"grid {t[1]} is labelled {t[8]}, not {s}")
        elif t[0] == "D":
            s, pp, lo, hi, N, dx = grids[int(t[1])]
            for q in range(3):
                eq(t[2 + q], dx[q], 0, f"{s} dxx{q}")
                eq(t[5 + q], 1 / dx[q], 0, f"{s} invdxx{q}")
        elif t[0] == "X":
            s, pp, lo, hi, N, dx = grids[int(t[1])]
            q, j = int(t[2]), int(t[3])
            eq(t[4], lo[q] + (mpf(j - NG) + mpf(1) / 2) * dx[q], abs(lo[q]) + abs(hi[q]), f"{s} xx[{q}][{j}]")
            done += 1
        elif t[0] == "C":
            s, pp, lo, hi, N, dx = grids[int(t[1])]
            x = [lo[q] + (mpf(int(t[2 + q]) - NG) + mpf(1) / 2) * dx[q] for q in range(3)]
            jets = cart(s, pp, [Jet.var(3, 1, q, x[q]) for q in range(3)])
            for q in range(3):
                cond = sum(abs(jets[q].d(e)) * (abs(lo[e]) + abs(hi[e])) for e in range(3)) * 10
                eq(t[5 + q], jets[q].v + mpf(c["org"][q]), cond + abs(jets[q].v) * 20, f"{s} xx_to_Cart[{q}] at index {t[2:5]} origin {c['org']}")
        elif t[0] == "P":
            gi, s, x, X = pts[int(t[1])]
            _, pp, lo, hi, N, dx = grids[gi]
            if s == "SinhSymTP":
                continue  # recorded finding of C07
            for q in range(3):
                # conditioning of the inverse map
                G = Geometry(s, pp, [mpf(z) for z in x], N=1)
                cond = sum(abs(G.Ji[q][e].v) for e in range(3)) * (sum(abs(mpf(z)) for z in X) + 5) * 50 + 1
                if cond * tol > 1e-3:
                    continue
                eq(t[2 + q], mpf(x[q]), cond, f"{s} Cart_to_xx[{q}] of the point with xx={x}")
                f = (mpf(x[q]) - lo[q]) / dx[q]
                if abs(f - mp.nint(f)) > cond * tol / dx[q] + mpf(1e-4):
                    require(int(t[5 + q]) == int(mp.floor(f)) + NG, f"{s}: nearest index in direction {q} of xx={x} is {t[5 + q]}, want {int(mp.floor(f)) + NG}")
        elif t[0] == "T":
            if not ov:
                eq(t[1], dsmin * mpf(c["cfl"]), dsmin, f"CFL timestep of {c['coords']}")
            require(int(t[2]) == ngrids, "NUMGRIDS")
    require(done > 0, "no output")
    return "multi" if ngrids > 1 else c["coords"][0]


def effective(s, vals, size, hole):
    """Parameter values after the grid set-up has applied the physical size and hole radius."""
    from coords import param_names
    pp = {n: vals[n] for n in param_names(s)}
    for n in pp:
        if n in ("xmax", "ymax", "zmax", "RMAX", "AMPL", "AMPLXYZ", "AMPLRHO", "AMPLZ", "AMAX", "RHOMAX", "ZMAX"):
            pp[n] = size
        elif n in ("xmin", "ymin", "zmin", "ZMIN"):
            pp[n] = -size
        elif n == "RMIN":
            pp[n] = hole
    return pp


def scale(s, pp, x):
    from mpmath import mp, mpf
    from coords import Geometry, is_sph, radial
    from jet import Jet
    R = lambda v, w=0: radial(s, pp, Jet.var(1, 1, 0, v), w)
    if "Cartesian" in s:
        return [R(x[i]).d(0) for i in range(3)]
    if is_sph(s):
        r = R(x[0])
        return [r.d(0), r.v, r.v * mp.sin(x[1])]
    if "Cylindrical" in s:
        return [R(x[0]).d(0), R(x[0]).v, R(x[2], 2).d(0)]
    a = R(x[0])
    b = mpf(pp["bScale"])
    v1, v2 = mp.sqrt(a.v ** 2 + (b * mp.sin(x[1])) ** 2), mp.sqrt(a.v ** 2 + b ** 2)
    return [a.d(0) * v1 / v2, v1, a.v * mp.sin(x[1])]


C.add_list("grids", gcases, run_g, shards=8, budget=90, budget_thorough=1500,
           rule="one grid per system plus random multi-grid projects: sizes, physical size, hole radius, origin, convergence factor, resolution override; C built with ASan/UBSan")

if __name__ == "__main__":
    sys.exit(C.main())
