#!/usr/bin/env python3
"""C15: generated loops visit exactly the requested points; slice diagnostics output the nearest points."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Violation, require

C = vp.Check("C15", assumptions=[
    "tile sizes are multiples of the increment (otherwise a tiled loop restarts its stride in every tile, as documented by its form)",
    "SIMD loops cover rows in blocks of simd_width starting at the lower bound, so a row whose length is no multiple of the width runs past its end",
    "CarpetX's grid.loop_* templates are represented by a small stand-in with the documented meaning of all/int and of the centring",
    "slices: grids with an even number of points around the axis and outer boundaries symmetric about the origin (the documented setting)",
])
CFL = ["-O1", "-fopenmp", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-w"]


# ---------------------------------------------------------------- nested loops
def strat_loops():
    from hypothesis import strategies as st

    @st.composite
    def one(draw):
        n = draw(st.integers(1, 4))
        tiled = draw(st.booleans())
        dims = []
        for _ in range(n):
            lo = draw(st.integers(-3, 4))
            ln = draw(st.integers(0, 9 if n < 4 else 5))
            inc = draw(st.sampled_from([1, 1, 1, 2, 3, 4]))
            mult = draw(st.integers(1, 4))
            dims.append(dict(lo=lo, hi=lo + ln, inc=inc, tile=inc * mult, sym=draw(st.sampled_from(["num", "var", "expr"]))))
        return dict(dims=dims, tiled=tiled, strs=(n == 1 and draw(st.booleans())), pragma=draw(st.sampled_from(["", "", "omp", "omp_inner", "collapse"])),
                    body=draw(st.booleans()), threads=draw(st.integers(1, 6)))
    return st.lists(one(), min_size=4, max_size=4)


def run_loops(cases):
    import nrpy.helpers.loop as lp
    src = ["#include <stdio.h>\n#define MIN(A, B) ( ((A) < (B)) ? (A) : (B) )\nstatic long cnt[4096]; static int seq[1<<16]; static int nseq;\n"]
    main = []
    for q, c in enumerate(cases):
        D = c["dims"]
        n = len(D)
        names = ["i", "j", "k2", "ll"][:n]
        lo, hi, inc = [], [], []
        for d, x in enumerate(D):
            if x["sym"] == "num":
                lo.append(str(x["lo"])); hi.append(str(x["hi"])); inc.append(str(x["inc"]))
            elif x["sym"] == "var":
                lo.append(f"L{d}"); hi.append(f"H{d}"); inc.append(str(x["inc"]))
            else:
                lo.append(f"L{d}+2-2"); hi.append(f"H{d} - 1 + 1"); inc.append(f"S{d}" if x["inc"] > 1 else "1")
        pr = [""] * n
        collapsible = not c["tiled"] and n > 1
        if c["pragma"] == "omp":
            pr[0] = "#pragma omp parallel for"
        elif c["pragma"] == "omp_inner":
            pr[-1] = "#pragma omp parallel for"
        elif c["pragma"] == "collapse" and collapsible:
            pr[0] = f"#pragma omp parallel for collapse({n})"
        tile = [str(x["tile"]) for x in D] if c["tiled"] else ""
        strides = [1]
        for x in D[::-1][:-1]:
            strides.insert(0, strides[0] * 9)
        idx = " + ".join(f"({nm}-({x['lo']}))*{s}" for nm, x, s in zip(names, D, strides))
        body = "{ const int z = " + idx + ";\n#pragma omp atomic\n cnt[z]++;\n int t;\n#pragma omp atomic capture\n t = nseq++;\n seq[t] = z; }"
        args = [names, lo, hi, inc, pr]
        if c["strs"]:
            args = [a[0] for a in args]
            tile = tile[0] if tile else ""
        kw = {} if tile == "" else dict(tile_size=tile)
        if c["body"]:
            code = lp.loop(*args, loop_body=body, **kw)
            require(isinstance(code, str), "loop() with a body did not return the loop")
        else:
            h, f = lp.loop(*args, **kw)
            code = h + body + "\n" + f
        if n == 1 and not c["tiled"]:
            h, f = lp.loop1D(args[0] if c["strs"] else names[0], lo[0], hi[0], inc[0], pr[0])
            require(re.sub(r"\s+", " ", h + body + "\n" + f) == re.sub(r"\s+", " ", code), f"loop1D and loop disagree: {h} {code}")
        decl = "".join(f"const int L{d}={x['lo']}, H{d}={x['hi']}, S{d}={x['inc']};" for d, x in enumerate(D))
        src.append(f"static void f{q}(void) {{ {decl}\n{code}\n}}\n")
        main.append(f'for(int z=0;z<4096;z++) cnt[z]=0; nseq=0; f{q}(); printf("F %d", nseq); for(int z=0;z<nseq;z++) printf(" %d", seq[z]); printf("\\n");')
        # the strides above assume extents of at most 9
        c["_str"] = strides
    # 4-d extents of 5 with stride 9 need 9^3*5 entries
    text = "".join(src).replace("cnt[4096]", "cnt[6600]") + "int main(){\n" + "\n".join(main).replace("z<4096", "z<6600") + "\nreturn 0;}\n"
    d = vp.fresh_dir()
    p = os.path.join(d, "l.c")
    open(p, "w").write(text)
    exe = vp.compile_c([p], out=os.path.join(d, "l"), flags=CFL, cwd=d)
    r = vp.run_exe(exe, env={"OMP_NUM_THREADS": str(cases[0]["threads"])})
    require(r.returncode == 0, f"loop program failed: {r.stderr.decode()[:600]}")
    lines = r.stdout.decode().splitlines()
    import itertools
    tag = None
    for c, l in zip(cases, lines):
        got = [int(v) for v in l.split()[2:]]
        want = []
        for t in itertools.product(*[range(x["lo"], x["hi"], x["inc"]) for x in c["dims"]]):
            want.append(sum((v - x["lo"]) * s for v, x, s in zip(t, c["dims"], c["_str"])))
        what = {k: v for k, v in c.items() if k != "_str"}
        require(sorted(got) == sorted(want), f"loop {what}: visited {len(got)} points, want {len(want)}; missing {sorted(set(want) - set(got))[:5]} extra {sorted(set(got) - set(want))[:5]} repeated {len(got) - len(set(got))}")
        if not c["tiled"] and c["pragma"] == "":
            require(got == want, f"loop {what}: points visited out of nest order")
        if len(want) > 3:
            tag = "tiled" if c["tiled"] else tag or "plain"
    for c in cases:
        c.pop("_str", None)
    return tag


# ---------------------------------------------------------------- simple_loop of three infrastructures
def strat_simple():
    from hypothesis import strategies as st
    from coords import SYSTEMS
    return st.fixed_dictionaries(dict(
        infra=st.sampled_from(["BHaH", "BHaH", "BHaH", "ETLegacy", "CarpetX"]), region=st.sampled_from(["all points", "interior", "interior", "interior plus one upper", ""]),
        N=st.lists(st.integers(1, 9), min_size=3, max_size=3), ng=st.lists(st.integers(1, 4), min_size=3, max_size=3), simd=st.sampled_from([False, False, True]),
        reads=st.sampled_from(["none", "xx", "rfm", "rfm"]), coord=st.sampled_from(SYSTEMS), omp=st.booleans(), custom=st.sampled_from(["", "", "#pragma omp parallel for schedule(static,2)"]),
        collapse=st.sampled_from([1, 1, 2, 3]), threads=st.integers(1, 6), device=st.booleans(), centering=st.one_of(st.none(), st.lists(st.integers(0, 1), min_size=3, max_size=3))))


CARPETX = r"""
#define CCTK_DEVICE
#define CCTK_HOST
#define CCTK_ATTRIBUTE_ALWAYS_INLINE
namespace Loop { struct PointDesc { int i, j, k; }; }
struct G { int n[3]; int nghostzones;
  template<int A,int B,int C_,class F> void all_(const F &f) const { used[0]=A; used[1]=B; used[2]=C_; for(int k=0;k<n[2]+2*NG[2]+1-C_;k++) for(int j=0;j<n[1]+2*NG[1]+1-B;j++) for(int i=0;i<n[0]+2*NG[0]+1-A;i++) f(Loop::PointDesc{i,j,k}); }
  template<int A,int B,int C_,class F> void int_(const F &f) const { used[0]=A; used[1]=B; used[2]=C_; for(int k=NG[2];k<n[2]+NG[2]+1-C_;k++) for(int j=NG[1];j<n[1]+NG[1]+1-B;j++) for(int i=NG[0];i<n[0]+NG[0]+1-A;i++) f(Loop::PointDesc{i,j,k}); }
  template<int A,int B,int C_,class F> void loop_all(int, const F &f) const { dev=0; all_<A,B,C_>(f); }
  template<int A,int B,int C_,class F> void loop_int(int, const F &f) const { dev=0; int_<A,B,C_>(f); }
  template<int A,int B,int C_,class F> void loop_all_device(int, const F &f) const { dev=1; all_<A,B,C_>(f); }
  template<int A,int B,int C_,class F> void loop_int_device(int, const F &f) const { dev=1; int_<A,B,C_>(f); }
  mutable int used[3]; mutable int dev; int NG[3]; };
"""


def run_simple(c):
    import contextlib, io
    import nr
    nr.reset("BHaH")
    import nrpy.reference_metric as rm
    rm.reference_metric.clear()
    N = c["N"]
    inf = c["infra"]
    region = c["region"]
    ng = c["ng"] if inf != "BHaH" else [c["ng"][0]] * 3
    T = [N[k] + 2 * ng[k] for k in range(3)]
    d = vp.fresh_dir()
    if inf == "CarpetX":
        from nrpy.infrastructures.CarpetX import simple_loop as sl
        if region not in ("all points", "interior"):
            with raises(ValueError, "unsupported region"):
                sl.simple_loop("x", loop_region=region)
            return "rejected"
        with raises(ValueError, "SIMD"):
            sl.simple_loop("x", loop_region=region, enable_simd=True)
        code = sl.simple_loop("visit(p.i, p.j, p.k);", loop_region=region, run_on_device=c["device"], **({} if c["centering"] is None else dict(loop_centering=c["centering"])))
        cen = c["centering"] or [0, 0, 0]
        src = f"""#include <cstdio>
{CARPETX}
static void visit(int i,int j,int k) {{ std::printf("%d %d %d\\n", i, j, k); }}
int main() {{ G grid{{}}; int N[3]={{{','.join(map(str, N))}}}, g[3]={{{','.join(map(str, ng))}}}; for(int i=0;i<3;i++) {{ grid.n[i]=N[i]; grid.NG[i]=g[i]; }}
{code}
std::printf("C %d %d %d %d\\n", grid.used[0], grid.used[1], grid.used[2], grid.dev); }}
"""
        p = os.path.join(d, "s.cc")
        open(p, "w").write(src)
        exe = vp.compile_c([p], out=os.path.join(d, "s"), flags=["-O0", "-w", "-std=c++17"], cc="g++", cwd=d)
        r = vp.run_exe(exe)
        L = r.stdout.decode().splitlines()
        require(L[-1].split()[1:] == [str(v) for v in cen + [int(c["device"])]], f"CarpetX loop {c}: centring/device used {L[-1]}")
        got = sorted(tuple(map(int, l.split())) for l in L[:-1])
        o = 0 if region == "all points" else 1
        want = sorted((i, j, k) for i in range(o * ng[0], T[0] - o * ng[0] + 1 - cen[0]) for j in range(o * ng[1], T[1] - o * ng[1] + 1 - cen[1]) for k in range(o * ng[2], T[2] - o * ng[2] + 1 - cen[2]))
        require(got == want, f"CarpetX loop {c}: visited {len(got)} points, want {len(want)}")
        return "carpetx"
    body = "visit(i0,i1,i2);\n"
    extra, members, W = "", [], 4
    simd = c["simd"]
    collapse = c["collapse"]
    if inf == "ETLegacy":
        from nrpy.infrastructures.ETLegacy import simple_loop as sl
        if region not in ("all points", "interior"):
            with raises(ValueError, "unsupported region"):
                sl.simple_loop("x", loop_region=region)
            return "rejected"
        code = sl.simple_loop(body, enable_simd=simd, loop_region=region, enable_OpenMP=c["omp"], OMP_custom_pragma=c["custom"], OMP_collapse=collapse)
        decl = f"const int cctk_lsh[3]={{{','.join(map(str, T))}}}, cctk_nghostzones[3]={{{','.join(map(str, ng))}}};"
    else:
        from nrpy.infrastructures.BHaH import simple_loop as sl
        reads = c["reads"]
        if reads == "xx" and simd:
            with raises(ValueError, "xx with SIMD"):
                sl.simple_loop(body, enable_simd=True, loop_region="interior", read_xxs=True)
            simd = False
        with raises(ValueError, "xx together with precomputation"):
            sl.simple_loop(body, loop_region="interior", read_xxs=True, enable_rfm_precompute=True)
        kw = {}
        if reads == "xx":
            kw["read_xxs"] = True
            body += "chk(xx0 == 1+i0 && xx1 == 1000+i1 && xx2 == 2000+i2);\n"
        if reads == "rfm":
            kw.update(enable_rfm_precompute=True, CoordSystem=c["coord"])
            with contextlib.redirect_stdout(io.StringIO()):
                from nrpy.infrastructures.BHaH import rfm_precompute as rp
                P = rp.ReferenceMetricPrecompute(c["coord"])
            members = [x.split()[-1].rstrip(";") for x in P.BHaH_defines_list]
            for m, nm in enumerate(members):
                k = int(re.search(r"_of_xx(\d)", nm).group(1))
                if simd:
                    body += f"{{ double t[simd_width]; WriteSIMD(t, {nm}); for(int l=0;l<simd_width;l++) chk(t[l] == {1000 * m} + i{k}{'+l' if k == 0 else ''}); }}\n"
                else:
                    body += f"chk({nm} == {1000 * m} + i{k});\n"
                extra += f"rs.{nm} = malloc(sizeof(double)*{T[k] + 16}); for(int i=0;i<{T[k] + 16};i++) rs.{nm}[i] = {1000 * m} + i;\n"
        if region == "":
            require(sl.simple_loop(body, enable_simd=simd, loop_region="", **kw) == body, "simple_loop with no region must return the body unchanged")
            return "noregion"
        with contextlib.redirect_stdout(io.StringIO()):
            code = sl.simple_loop(body, enable_simd=simd, loop_region=region, enable_OpenMP=c["omp"], OMP_custom_pragma=c["custom"], OMP_collapse=collapse, **kw)
        decl = f"const int NGHOSTS={ng[0]};" + "".join(f"const int Nxx{k}={N[k]}, Nxx_plus_2NGHOSTS{k}={T[k]};" for k in range(3))
        decl += "double *xx[3]; for(int q=0;q<3;q++) { xx[q]=malloc(8*64); for(int i=0;i<64;i++) xx[q][i] = (q==0?1:1000*q)+i; }"
    if c["custom"] and collapse > 1 and "collapse" not in c["custom"]:
        pass
    import shutil
    shutil.copy(os.path.join(vp.REPO, "nrpy/helpers/simd_intrinsics.h"), d)
    src = f"""#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <omp.h>
#define REAL double
#define MAYBE_UNUSED __attribute__((unused))
{'#include "simd_intrinsics.h"' if simd else ''}
struct {{ {' '.join(f'double *{m};' for m in members)} int _; }} rs;
static int bad, nv, pts[200000][3], par;
static void visit(int a,int b,int c_) {{ int t; if(omp_in_parallel()) par=1;
#pragma omp atomic capture
 t = nv++;
 pts[t][0]=a; pts[t][1]=b; pts[t][2]=c_; }}
static void chk(int ok) {{ if(!ok) {{
#pragma omp atomic
 bad++; }} }}
int main(void) {{ {decl}
{extra}
__typeof__(rs) *rfmstruct = &rs; (void)rfmstruct;
{code}
for(int i=0;i<nv;i++) printf("%d %d %d\\n", pts[i][0], pts[i][1], pts[i][2]);
printf("E %d %d\\n", bad, par); return 0; }}
"""
    p = os.path.join(d, "s.c")
    open(p, "w").write(src)
    exe = vp.compile_c([p], out=os.path.join(d, "s"), flags=["-O1", "-fopenmp", "-w"] + (["-mavx2", "-mfma"] if simd else []), cwd=d)
    r = vp.run_exe(exe, env={"OMP_NUM_THREADS": str(c["threads"])})
    require(r.returncode == 0, f"loop program failed: {r.stderr.decode()[:500]}")
    L = r.stdout.decode().splitlines()
    bad, par = map(int, L[-1].split()[1:])
    got = [tuple(map(int, l.split())) for l in L[:-1]]
    if region == "all points":
        lo, hi = [0] * 3, T
    else:
        up = 1 if region.endswith("upper") else 0
        lo, hi = ng, [ng[k] + N[k] + up for k in range(3)]
    if simd:
        W = 4
        want = sorted((i, j, k) for i in range(lo[0], hi[0], W) for j in range(lo[1], hi[1]) for k in range(lo[2], hi[2]))
    else:
        want = sorted((i, j, k) for i in range(lo[0], hi[0]) for j in range(lo[1], hi[1]) for k in range(lo[2], hi[2]))
    require(sorted(got) == want, f"{inf} loop {c}: visited {len(got)} points, want {len(want)}; missing {sorted(set(want) - set(got))[:4]} extra {sorted(set(got) - set(want))[:4]}")
    require(bad == 0, f"{inf} loop {c}: {bad} values read at a loop point belong to another point")
    if c["omp"] or c["custom"]:
        require(par == 1 or c["threads"] == 1, f"{inf} loop {c}: requested OpenMP loop runs serially")
    else:
        require(par == 0, f"{inf} loop {c}: loop with OpenMP disabled runs in a parallel region")
        require(not got or all(got[i][::-1] < got[i + 1][::-1] for i in range(len(got) - 1)), f"{inf} loop {c}: i0 is not the innermost (fastest) index")
    return inf + c["reads"] if inf == "BHaH" else inf


class raises:
    def __init__(self, exc, what):
        self.exc, self.what = exc, what

    def __enter__(self):
        pass

    def __exit__(self, t, v, tb):
        require(t is not None, f"documented rejection missing: {self.what}")
        return issubclass(t, self.exc)


# ---------------------------------------------------------------- slices
def cases_slices(tier, rng):
    from coords import SYSTEMS, param_names
    out = []
    for rep in range(1 if tier == "quick" else 24):
        for s in SYSTEMS:
            gs = []
            for _ in range(5):
                N = [rng.randint(3, 9) for _ in range(3)]
                ph = 1 if "Cylind" in s else 2
                if "Cartesian" not in s:
                    N[ph] = rng.choice([2, 4, 6, 8, 10, 12])
                    if ph == 2:
                        N[1] = rng.randint(2, 9)
                pv = {n: round(rng.uniform(0.15, 0.9), 4) if n.startswith("SINHW") else round(rng.uniform(0.05, 0.6), 4) if "slope" in n else round(rng.uniform(0.3, 2.5), 4) for n in param_names(s)
                      if n.startswith("SINHW") or "slope" in n or n == "bScale"}
                gs.append(dict(N=N, size=round(rng.uniform(4, 20), 3), hole=round(rng.uniform(1, 3), 3), pv=pv, seed=rng.randint(0, 10 ** 9), times=sorted(round(rng.uniform(0, 9), 1) for _ in range(2))))
            out.append(dict(coord=s, fd=rng.choice([2, 4, 6, 8]), grids=gs, asan=bool(rep % 2 == 0)))
    return out


def run_slices(c):
    import contextlib, io
    import numpy as np
    from mpmath import mp, mpf
    import bhah
    import coords
    from coords import domain, param_names
    mp.dps = 25
    s = c["coord"]
    bhah.start("double", c["fd"], None)
    from nrpy.infrastructures.BHaH import numerical_grids_and_timestep as ng
    from nrpy.infrastructures.BHaH import xx_tofrom_Cart as xc
    from nrpy.infrastructures.BHaH.diagnostics import output_0d_1d_2d_nearest_gridpoint_slices as od
    import nrpy.grid as gri
    import nrpy.params as par
    for n, t, v in (("dt", "REAL", 0.1), ("time", "REAL", 0.0), ("t_0", "REAL", 0.0), ("nn", "int", 0), ("nn_0", "int", 0), ("t_final", "REAL", 1.0), ("CFL_FACTOR", "REAL", 0.5)):
        if n not in par.glb_code_params_dict:
            par.register_CodeParameter(t, "t", n, v, commondata=True)
    if "NUMGRIDS" not in par.glb_code_params_dict:
        par.register_CodeParameter("int", "t", "NUMGRIDS", 1, commondata=True)
    gri.register_gridfunctions(["uu", "vv"], group="EVOL")
    gri.register_gridfunctions("dd", group="AUX")
    q = {("int", "pt"): "(int)idx3", ("REAL", "u"): "y_n_gfs[IDX4pt(VVGF, idx3)]", ("REAL", "dq"): "2*diagnostic_output_gfs[IDX4pt(DDGF, idx3)]"}
    center = "Wedge" not in s
    with contextlib.redirect_stdout(io.StringIO()):
        ng.register_CFunctions(list_of_CoordSystems=[s], list_of_grid_physical_sizes=[10.0], Nxx_dict={s: [4, 4, 4]}, enable_set_cfl_timestep=False)
        xc.register_CFunction_xx_to_Cart(s)
        if center:
            od.register_CFunction_diagnostics_nearest_grid_center(s, q)
        else:
            with raises(ValueError, "no grid centre in wedge coordinates"):
                od.register_CFunction_diagnostics_nearest_grid_center(s, q)
        for ax in "yz":
            od.register_CFunction_diagnostics_nearest_1d_axis(s, q, axis=ax)
        for pl in ("xy", "yz"):
            od.register_CFunction_diagnostics_nearest_2d_plane(s, q, plane=pl)
        with raises(ValueError, "x axis"):
            od.register_CFunction_diagnostics_nearest_1d_axis(s, q, axis="x")
        with raises(ValueError, "xz plane"):
            od.register_CFunction_diagnostics_nearest_2d_plane(s, q, plane="xz")
    import nrpy.c_function as cfc
    keep = ("diagnostics_nearest", "xx_to_Cart", "numerical_grid_params_Nxx_dxx_xx")
    for k in list(cfc.CFunction_dict):
        if not k.startswith(keep):
            del cfc.CFunction_dict[k]
    pnames = sorted({n for g in c["grids"] for n in g["pv"]})
    sets = "\n".join(f'    if(scanf("%lf", &tmp) != 1) return 3; params.{n} = tmp;' for n in pnames)
    main = f"""#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
int main() {{
  commondata_struct commondata; commondata_struct_set_to_default(&commondata);
  int Nx[3]; double tmp;
  if(scanf("%d %d %d", &Nx[0], &Nx[1], &Nx[2]) != 3) return 2;
  griddata_struct gd[2]; commondata.NUMGRIDS = 1; params_struct_set_to_default(&commondata, gd); params_struct params = gd[0].params;
  strcpy(params.CoordSystemName, "{s}"); params.CoordSystem_hash = {s.upper()};
  if(scanf("%lf", &tmp) != 1) return 3;  params.grid_physical_size = tmp;
  if(scanf("%lf", &tmp) != 1) return 3;  params.grid_hole_radius = tmp;
{sets}
  REAL *xx[3];
  numerical_grid_params_Nxx_dxx_xx(&commondata, &params, xx, Nx, true);
  const int ntot = params.Nxx_plus_2NGHOSTS0 * params.Nxx_plus_2NGHOSTS1 * params.Nxx_plus_2NGHOSTS2;
  MoL_gridfunctions_struct gf; gf.y_n_gfs = malloc(sizeof(REAL)*ntot*NUM_EVOL_GFS); gf.diagnostic_output_gfs = malloc(sizeof(REAL)*ntot*NUM_AUX_GFS); gf.auxevol_gfs = NULL;
  for(int g=0;g<NUM_EVOL_GFS;g++) for(int i=0;i<ntot;i++) gf.y_n_gfs[g*ntot+i] = 1e6*(g+1) + i;
  for(int i=0;i<ntot;i++) gf.diagnostic_output_gfs[DDGF*ntot+i] = -3.0*i;
  for(int step=0;step<2;step++) {{
    commondata.nn = step;
    if(scanf("%lf", &tmp) != 1) return 3;  commondata.time = tmp;
    {'diagnostics_nearest_grid_center(&commondata, &params, &gf);' if center else ''}
    diagnostics_nearest_1d_y_axis(&commondata, &params, xx, &gf); diagnostics_nearest_1d_z_axis(&commondata, &params, xx, &gf);
    diagnostics_nearest_2d_xy_plane(&commondata, &params, xx, &gf); diagnostics_nearest_2d_yz_plane(&commondata, &params, xx, &gf);
  }}
  for(int i=0;i<3;i++) free(xx[i]);
  free(gf.y_n_gfs); free(gf.diagnostic_output_gfs);
  return 0;
}}
"""
    exe, d = bhah.build(main, flags=["-O1", "-fopenmp", "-w"] + (["-fsanitize=address,undefined", "-fno-sanitize-recover=all"] if c["asan"] else []),
                        extra_defines={"MoL": "typedef struct { REAL *y_n_gfs, *auxevol_gfs, *diagnostic_output_gfs; } MoL_gridfunctions_struct;\n"})
    NG = c["fd"] // 2
    tag, known = None, None
    for g in c["grids"]:
        N = g["N"]
        P = {n: g["pv"].get(n) for n in param_names(s)}
        for n in P:
            if P[n] is None:
                P[n] = g["hole"] if n == "RMIN" else -g["size"] if n in ("xmin", "ymin", "zmin", "ZMIN") else g["size"]
        lo, hi = domain(s, P)
        dx = [(hi[k] - lo[k]) / N[k] for k in range(3)]
        T = [n + 2 * NG for n in N]
        w = vp.fresh_dir()
        r = vp.run_exe(exe, input=(f"{N[0]} {N[1]} {N[2]} {g['size']!r} {g['hole']!r}" + "".join(" " + repr(g["pv"][n]) for n in pnames) + f" {g['times'][0]} {g['times'][1]}\n").encode(), cwd=w, env={"OMP_NUM_THREADS": "3"})
        where = f"{s} N={N} NGHOSTS={NG}"
        require(r.returncode == 0, f"{where}: diagnostics program failed rc={r.returncode}: {r.stderr.decode(errors='replace')[:900]}")
        X = np.array([[[[float(v.v if hasattr(v, "v") else v) for v in coords.cart(s, P, [coords.Jet.const(1, 0, lo[k] + (mpf(i) + mpf(1) / 2) * dx[k]) for k, i in enumerate((a, b, e))])] for e in range(N[2])] for b in range(N[1])] for a in range(N[0])])
        size = abs(X).max()

        def read(fn):
            f = os.path.join(w, fn)
            require(os.path.exists(f), f"{where}: output file {fn} missing; have {sorted(os.listdir(w))}")
            return [[float(v) for v in l.split()] for l in open(f).read().splitlines()]

        def pt(row, off, what):
            idx3 = int(row[off])
            i = (idx3 % T[0] - NG, idx3 // T[0] % T[1] - NG, idx3 // T[0] // T[1] - NG)
            require(all(0 <= i[k] < N[k] for k in range(3)), f"{where} {what}: outputs ghost point {i}")
            require(row[off + 1] == 2e6 + idx3 and row[off + 2] == -6.0 * idx3, f"{where} {what}: quantities {row[off + 1:]} do not belong to point {idx3}")
            return i
        if center:
            rows = read("out0d-conv_factor1.00.txt")
            require(len(rows) == 2, f"{where} centre: {len(rows)} lines for two outputs")
            for row, t in zip(rows, g["times"]):
                require(abs(row[0] - t) <= 1e-6 * (1 + t), f"{where} centre: time {row[0]} want {t}")
                i = pt(row, 1, "centre")
                R = (X ** 2).sum(axis=3) ** 0.5
                require(R[i] <= R.min() + 1e-9 * size, f"{where} centre: outputs point {i} at distance {R[i]}, nearest is {R.min()}")
        for t, step in zip(g["times"], range(2)):
            same = g["times"][0] == g["times"][1]
            for ax, a in (("y", 1), ("z", 2)):
                rows = read(f"out1d-{ax}-{s}-conv_factor1.00-t{t:08.2f}.txt")
                if same:
                    rows = rows[:len(rows) // 2]
                oth = [k for k in range(3) if k != a]
                if ("Wedge" in s and ax == "y") or ("Ring" in s and ax == "z"):
                    require(not rows, f"{where} {ax} axis: the grid has no points there")
                    continue
                require(rows, f"{where}: no output along {ax}")
                require(all(rows[m][0] <= rows[m + 1][0] for m in range(len(rows) - 1)), f"{where} {ax} axis: not sorted")
                pts = [pt(row, 1, f"{ax} axis") for row in rows]
                require(len(set(pts)) == len(pts), f"{where} {ax} axis: repeated points")
                for row, i in zip(rows, pts):
                    require(abs(row[0] - X[i][a]) <= 1e-9 * size, f"{where} {ax} axis: point {i} reported at {row[0]}, is at {X[i][a]}")
                D = (X[..., oth[0]] ** 2 + X[..., oth[1]] ** 2) ** 0.5
                check_lines(where + f" {ax} axis", s, N, pts, D, X[..., a], size, fd_axis(s, ax))
            for pl, a in (("xy", 2), ("yz", 0)):
                rows = read(f"out2d-{pl}-{s}-conv_factor1.00-t{t:08.2f}.txt")
                if same:
                    rows = rows[:len(rows) // 2]
                cc = {"xy": (0, 1), "yz": (1, 2)}[pl]
                pts = [pt(row, 2, f"{pl} plane") for row in rows]
                require(len(set(pts)) == len(pts), f"{where} {pl} plane: repeated points")
                for row, i in zip(rows, pts):
                    require(abs(row[0] - X[i][cc[0]]) <= 1e-9 * size and abs(row[1] - X[i][cc[1]]) <= 1e-9 * size, f"{where} {pl} plane: point {i} reported at {row[:2]}, is at {X[i]}")
                if "Wedge" in s and pl == "xy":
                    try:
                        check_sheets(where + f" {pl} plane", s, N, pts, abs(X[..., a]), X, pl, size)
                    except Violation as e:
                        require(sorted({i[2] for i in pts}) == [int(N[2] / 4 - 0.5), int(3 * N[2] / 4 - 0.5)] and len(pts) == 2 * N[0] * N[1], str(e))
                        known = known or e
                    continue
                check_sheets(where + f" {pl} plane", s, N, pts, abs(X[..., a]), X, pl, size)
        tag = s
        import shutil
        shutil.rmtree(w, ignore_errors=True)
    if known is not None:
        raise Violation(str(known), signature="wedge-xy-plane-sheets-at-quarter-indices")
    return tag


def fd_axis(s, ax):
    """The grid direction running along the axis."""
    if "Cartesian" in s:
        return 1 if ax == "y" else 2
    if "Cylind" in s:
        return 0 if ax == "y" else 2
    return 0


def check_lines(what, s, N, pts, D, A, size, f):
    """The output consists of whole grid lines along direction f; on each side of the axis the nearest line is present, and no other."""
    import itertools
    o = [k for k in range(3) if k != f]
    lines = {}
    for p in pts:
        lines.setdefault((p[o[0]], p[o[1]]), []).append(p)

    def full(l):
        r = [0, 0, 0]
        r[o[0]], r[o[1]] = l
        out = []
        for m in range(N[f]):
            r[f] = m
            out.append(tuple(r))
        return out
    for l, v in lines.items():
        require(len(v) == N[f], f"{what}: grid line {l} incomplete ({len(v)} of {N[f]} points)")
    allb = {l: full(l) for l in itertools.product(range(N[o[0]]), range(N[o[1]]))}
    dist = {l: sum(D[p] for p in v) for l, v in allb.items()}
    side = {l: (1 if sum(A[p] for p in v) > 0 else -1) for l, v in allb.items()}
    twosided = "Cartesian" in s or ("Cylind" in s and f == 2)
    groups = [list(allb)] if twosided else [[l for l in allb if side[l] == q] for q in (1, -1)]
    tol = 1e-9 * size * N[f]
    for gq, G in enumerate(groups):
        if not G:
            continue
        best = min(dist[l] for l in G)
        mine = [l for l in lines if l in G]
        if not mine and any(abs(sum(A[p] for p in allb[l])) <= tol for l in G):
            continue
        require(len(mine) == 1 or not mine and False, f"{what}: {len(mine)} grid lines on side {gq}, want one: {mine}")
        require(dist[mine[0]] <= best + tol, f"{what}: output line {mine[0]} (mean distance {dist[mine[0]] / N[f]}) is not the nearest ({best / N[f]})")


def check_sheets(what, s, N, pts, D, X, pl, size):
    """Whole coordinate sheets; each the nearest to the plane on its side of the axis."""
    import itertools
    if "Cartesian" in s:
        f = 2 if pl == "xy" else 0
    elif "Cylind" in s:
        f = 2 if pl == "xy" else 1
    elif "Wedge" in s:
        f = 2 if pl == "xy" else 1
    else:
        f = 1 if pl == "xy" else 2
    angular = ("Cylind" in s and pl == "yz") or (f == 2 and "Cartesian" not in s and "Cylind" not in s)
    sheets = sorted({p[f] for p in pts})
    o = [k for k in range(3) if k != f]
    require(len(pts) == len(sheets) * N[o[0]] * N[o[1]], f"{what}: incomplete sheets: {len(pts)} points on sheets {sheets}")
    import numpy as np
    dist = [np.take(D, m, axis=f).mean() for m in range(N[f])]
    tol = 1e-9 * size
    if not angular:
        require(len(sheets) == 1, f"{what}: {len(sheets)} sheets output, want one")
        require(dist[sheets[0]] <= min(dist) + tol, f"{what}: sheet {sheets[0]} at mean distance {dist[sheets[0]]}, nearest {min(dist)}")
        return
    require(len(sheets) == 2, f"{what}: {len(sheets)} half-planes output, want two")
    half = N[f] // 2
    for h in (0, 1):
        G = range(h * half, h * half + half)
        mine = [m for m in sheets if m in G]
        require(len(mine) == 1, f"{what}: half-planes {sheets} do not lie on opposite sides")
        best = min(dist[m] for m in G)
        require(dist[mine[0]] <= best + tol, f"{what}: half-plane {mine[0]} at mean distance {dist[mine[0]]}, nearest {best}")


C.add("loops", strat_loops, run_loops, quick=24, thorough=1500, shards=3, budget=90, budget_thorough=900, rule="four loop nests of depth 1-4 per case, tiled or not, string/list forms, numeric/symbolic bounds and strides, OpenMP pragmas; non-trivial: a nest visiting more than three points")
C.add("simple", strat_simple, run_simple, quick=50, thorough=2500, shards=3, budget=90, budget_thorough=900, rule="regions x infrastructures x SIMD x collapse x OpenMP x coordinate/precomputed reads over 17 systems; every accepted combination is compiled and run")
def cases_matrix(tier, rng):
    """Every infrastructure x region x SIMD once (the random generator above samples the remaining options)."""
    out = []
    for infra in ("BHaH", "ETLegacy", "CarpetX"):
        for region in ("all points", "interior") + (("interior plus one upper",) if infra == "BHaH" else ()):
            for simd in (False, True) if infra != "CarpetX" else (False,):
                for collapse in (1, 3) if infra != "CarpetX" else (1,):
                    out.append(dict(infra=infra, region=region, N=[rng.randint(2, 9) for _ in range(3)], ng=[rng.randint(1, 4) for _ in range(3)], simd=simd, reads="none", coord="Cartesian",
                                    omp=True, custom="", collapse=collapse, threads=3, device=False, centering=[1, 0, 1]))
    return out


C.add_list("matrix", cases_matrix, run_simple, shards=3, budget=90, rule="the full matrix infrastructure x region x SIMD x collapse, one random grid each")
C.add_list("slices", cases_slices, run_slices, shards=6, budget=150, budget_thorough=1800, rule="17 systems x 5 random grids each, two output times; every generated diagnostics function compiled (ASan on odd passes) and its files compared with the nearest lines/sheets of the independent coordinate map")

if __name__ == "__main__":
    sys.exit(C.main())
