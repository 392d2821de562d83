#!/usr/bin/env python3
"""C07: reference-metric quantities are those of flat space in the stated coordinates."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Violation, require

C = vp.Check("C07", assumptions=[
    "coordinate maps are restated independently in lib/coords.py and differentiated with truncated Taylor arithmetic",
    "the wedge systems' spherical coordinates are those of the rotated frame, as documented in the source",
    "SinhSphericalv2n*/SinhCylindricalv2n* document that no closed-form inverse map exists; the inverse map is not checked there",
])
_RFM = {}
TENS = dict(ghatDD=2, ghatUU=2, ReU=1, ReD=1, ReDD=2, detgammahatdD=1, detgammahatdDD=2, ReUdD=2, ReUdDD=3, ReDdD=2, ReDdDD=3,
            ReDDdD=3, ReDDdDD=4, ghatDDdD=3, ghatDDdDD=4, GammahatUDD=3, GammahatUDDdD=4)
PLAIN = dict(xx_to_Cart=1, xxSph=1, scalefactor_orthog=1, UnitVectors=2, Jac_dUCart_dDrfmUD=2, Jac_dUrfm_dDCartUD=2, Jac_dUSph_dDrfmUD=2, Jac_dUrfm_dDSphUD=2)


def flat(T, rank, pre=()):
    if rank == 0:
        return [(pre, T)]
    require(isinstance(T, list) and len(T) == 3, "tensor of the wrong shape")
    return [z for i in range(3) for z in flat(T[i], rank - 1, pre + (i,))]


def evaluator(coord, simplify=False):
    """Numerical evaluators of the class attributes (plain and precompute)."""
    key = (coord, simplify)
    if key in _RFM:
        return _RFM[key]
    import sympy as sp
    import nr
    from coords import param_names
    nr.reset()
    import nrpy.reference_metric as rm
    if simplify:
        plain = rm.ReferenceMetric(coord, enable_rfm_precompute=False, SymPySimplifyExpressions=True)
        pre = rm.ReferenceMetric(coord, enable_rfm_precompute=True, SymPySimplifyExpressions=True)
    else:
        plain, pre = rm.reference_metric[coord], rm.reference_metric[coord + "_rfm_precompute"]
    names = param_names(coord) + ["PI", "SQRT1_2"]
    base = [sp.Symbol(n) for n in ["xx0", "xx1", "xx2", "Cartx", "Carty", "Cartz"] + names]

    def lam(obj, spec, extra, args_extra=()):
        keys, ex = [], []
        for nme, rank in spec.items():
            for idx, e in flat(getattr(obj, nme), rank):
                keys.append((nme, idx))
                ex.append(e)
        for nme in extra:
            keys.append((nme, ()))
            ex.append(getattr(obj, nme))
        return mk(keys, ex, args_extra)

    def mk(keys, ex, args_extra=()):
        ex = [sp.sympify(e) for e in ex]
        # match symbols by name whatever their assumptions
        allow = {str(b) for b in base} | set(args_extra)
        fs = set().union(*[e.free_symbols for e in ex]) if ex else set()
        bad = {str(s) for s in fs} - allow
        require(not bad, f"{coord}: expressions contain unexpected symbols {sorted(bad)}")
        args = [str(b) for b in base] + list(args_extra)
        ren = {s: sp.Symbol(str(s)) for s in fs}
        ex = [e.xreplace(ren) for e in ex]
        f = sp.lambdify([sp.Symbol(a) for a in args], ex, modules="mpmath", cse=True)
        return keys, f, args

    fv, vals = [str(s) for s in pre.freevars_uniq_xx_indep], pre.freevars_uniq_vals
    d = dict(plain=lam(plain, {**TENS, **PLAIN}, ["detgammahat"]),
             inv=mk([("Cart_to_xx", (i,)) for i in range(3)], plain.Cart_to_xx),
             dom=mk([("xxmin", (i,)) for i in range(3)] + [("xxmax", (i,)) for i in range(3)], list(plain.xxmin) + list(plain.xxmax)),
             vals=mk([(n, ()) for n in fv], vals),
             prejac=lam(pre, {k: v for k, v in PLAIN.items() if k != "scalefactor_orthog"}, []),
             pre=lam(pre, TENS, ["detgammahat"], [n for n in sorted(set(fv)) if "_of_xx" in n]))
    _RFM[key] = d
    return d


def cases(tier, rng):
    from coords import SYSTEMS, random_params, random_point
    out = []
    n = 12 if tier == "quick" else 150
    for s in SYSTEMS:
        for k in range(n):
            p = random_params(s, rng)
            out.append(dict(coord=s, p=p, xx=random_point(s, p, rng, ghosts=(k % 2 == 1)), simplify=False))
        if s in ("Spherical", "Cartesian", "Cylindrical", "SinhCartesian") :
            p = random_params(s, rng)
            out.append(dict(coord=s, p=p, xx=random_point(s, p, rng), simplify=True))
    # one shard = a run of consecutive systems: keep each system's cases together
    rows = {s: [c for c in out if c["coord"] == s] for s in SYSTEMS}
    order, k = [], 0
    lanes = [[] for _ in range(8)]
    for i, s in enumerate(SYSTEMS):
        lanes[i % 8] += rows[s]
    m = max(map(len, lanes))
    for j in range(m):
        for L in lanes:
            order.append(L[j] if j < len(L) else None)
    return [c if c is not None else dict(coord=None) for c in order]


def run(c):
    if c["coord"] is None:
        return None
    from mpmath import mp, mpf
    from coords import Geometry, domain, is_sph
    import coords
    mp.dps = 50
    ev = evaluator(c["coord"], c["simplify"])
    coord, p, xx = c["coord"], c["p"], [mpf(x) for x in c["xx"]]
    G = Geometry(coord, p, xx)
    R = range(3)
    env = {k: mpf(v) for k, v in p.items()}
    # the mathematical constants are registered with ~33 digits; grid bounds use them
    env.update(PI=mp.pi, SQRT1_2=mp.sqrt(mpf(1) / 2), xx0=xx[0], xx1=xx[1], xx2=xx[2])
    X = [x.v for x in G.X]
    env.update(Cartx=X[0], Carty=X[1], Cartz=X[2])

    def call(which, extra=()):
        keys, f, args = ev[which]
        e = dict(env)
        e.update(extra)
        return dict(zip(keys, f(*[e.get(a, mpf(1)) for a in args])))

    tol = mpf(10) ** -25

    def same(got, want, scale, what, sig=None):
        got = mp.mpmathify(got)
        ok = mp.isfinite(got) and abs(got - want) <= tol * (1 + abs(want) + scale)
        require(ok, f"{coord} {what} at xx={c['xx']} params={p}: {mp.nstr(got, 15)}, flat-space geometry gives {mp.nstr(want, 15)}", sig)

    h = G.h
    hj = lambda i: h[i]
    inv = [1 / h[i] for i in R]
    HH = [[h[i] * h[j] for j in R] for i in R]
    det = G.det
    big = max([abs(q) for i in R for q in h[i].c] + [abs(q) for i in R for q in inv[i].c] + [abs(q) for q in det.c] + [mpf(1)])
    scale = big * big * mpf(1000)

    def want(nme, idx):
        if nme == "ghatDD":
            return G.g[idx[0]][idx[1]].v
        if nme == "ghatUU":
            return G.gi[idx[0]][idx[1]].v
        if nme == "ReU":
            return inv[idx[0]].v
        if nme in ("ReD", "scalefactor_orthog"):
            return h[idx[0]].v
        if nme == "ReDD":
            return HH[idx[0]][idx[1]].v
        if nme == "detgammahat":
            return det.v
        if nme.startswith("detgammahatd"):
            return det.d(*idx)
        if nme.startswith("ReUd"):
            return inv[idx[0]].d(*idx[1:])
        if nme.startswith("ReDDd"):
            return HH[idx[0]][idx[1]].d(*idx[2:])
        if nme.startswith("ReDd"):
            return h[idx[0]].d(*idx[1:])
        if nme.startswith("ghatDDd"):
            return G.g[idx[0]][idx[1]].d(*idx[2:])
        if nme == "GammahatUDD":
            return G.Gam[idx[0]][idx[1]][idx[2]].v
        if nme == "GammahatUDDdD":
            return G.Gam[idx[0]][idx[1]][idx[2]].d(idx[3])
        if nme == "xx_to_Cart":
            return X[idx[0]]
        if nme == "Jac_dUCart_dDrfmUD":
            return G.J[idx[0]][idx[1]].v
        if nme == "Jac_dUrfm_dDCartUD":
            return G.Ji[idx[0]][idx[1]].v
        if nme == "UnitVectors":
            return G.J[idx[1]][idx[0]].v / h[idx[0]].v
        return None

    got = call("plain")
    sph = {}
    for (nme, idx), v in got.items():
        if nme in ("xxSph", "Jac_dUSph_dDrfmUD", "Jac_dUrfm_dDSphUD"):
            sph[nme, idx] = v
            continue
        same(v, want(nme, idx), scale, f"{nme}{list(idx)}")
    # spherical coordinates: the point they denote is the point itself
    r, th, ph = [sph["xxSph", (i,)] for i in R]
    P = [r * mp.sin(th) * mp.cos(ph), r * mp.sin(th) * mp.sin(ph), r * mp.cos(th)]
    Y = X
    if coord.startswith("UWedge"):
        Y = [X[2], X[1], -X[0]]
    elif coord.startswith("LWedge"):
        Y = [-X[2], X[1], X[0]]
    inside = all(a <= b <= e for a, b, e in zip(*[domain(coord, p)[0], xx, domain(coord, p)[1]]))
    if inside:
        for i in R:
            same(P[i], Y[i], scale, f"spherical coordinates denote another point ({'xyz'[i]})")
        require(r >= 0 and 0 <= th <= mp.pi, f"{coord}: (r, theta) = ({r}, {th}) out of range inside the grid")
        # Jacobian with respect to spherical coordinates by the chain rule
        dC = [[mp.sin(th) * mp.cos(ph), r * mp.cos(th) * mp.cos(ph), -r * mp.sin(th) * mp.sin(ph)],
              [mp.sin(th) * mp.sin(ph), r * mp.cos(th) * mp.sin(ph), r * mp.sin(th) * mp.cos(ph)],
              [mp.cos(th), -r * mp.sin(th), mpf(0)]]
        JY = [[G.J[i][j].v for j in R] for i in R]
        if coord.startswith("UWedge"):
            JY = [JY[2], JY[1], [-q for q in JY[0]]]
        elif coord.startswith("LWedge"):
            JY = [[-q for q in JY[2]], JY[1], JY[0]]
        for i in R:
            for j in R:
                same(sum(dC[i][k] * sph["Jac_dUSph_dDrfmUD", (k, j)] for k in R), JY[i][j], scale, f"Jac_dUSph_dDrfmUD by the chain rule [{i}][{j}]")
                same(sum(sph["Jac_dUSph_dDrfmUD", (i, k)] * sph["Jac_dUrfm_dDSphUD", (k, j)] for k in R), mpf(1 if i == j else 0), scale * scale, f"Jac_dUrfm_dDSphUD is not the inverse [{i}][{j}]")
    # inverse map
    if inside and "v2n" not in coord:
        b = call("inv")
        for i in R:
            sig = None
            v = b["Cart_to_xx", (i,)]
            if coord == "SinhSymTP" and i == 0:
                AA = coords.radial(coord, p, coords.Jet.var(3, 0, 0, xx[0])).v
                if abs(v - AA) < mpf(10) ** -20 * (1 + abs(AA)):
                    sig = "SinhSymTP-Cart_to_xx0-returns-AA"
            same(v, xx[i], mpf(10) ** 3 * (1 + sum(abs(q) for q in X)), f"Cart_to_xx[{i}] after xx_to_Cart", sig) if sig is None else deferred.append((v, xx[i], i, sig))
    # grid bounds
    dm = call("dom")
    lo, hi = domain(coord, p)
    for i in R:
        same(dm["xxmin", (i,)], lo[i], 0, f"xxmin[{i}]")
        same(dm["xxmax", (i,)], hi[i], 0, f"xxmax[{i}]")
    # precompute: tabulated functions, substituted, give the same quantities
    pj = call("prejac")
    for k, v in pj.items():
        if got[k] == v:
            continue
        same(v, got[k], scale, f"{k[0]}{list(k[1])} with precompute")
    vals = call("vals")
    ext = {}
    for (n, _), v in vals.items():
        if "_of_xx" in n:
            ext[n] = v
        else:
            same(mp.mpmathify(n), v, 0, f"precomputed constant {n}")
    for k, v in call("pre", ext).items():
        same(v, want(*k), scale, f"{k[0]}{list(k[1])} with precompute")
    if deferred:
        v, w, i, sig = deferred[0]
        deferred.clear()
        raise Violation(f"{coord} Cart_to_xx[{i}] after xx_to_Cart at xx={c['xx']} params={p}: {mp.nstr(v, 15)} instead of {mp.nstr(w, 15)}", sig)
    return "ghost" if not inside else "interior"


deferred = []
C.add_list("geometry", cases, run, shards=8, budget=70, budget_thorough=1200,
           rule="17 coordinate systems x random parameters x random points (half of them allowed into ghost zones); all non-trivial")


# -------------------------------------------------------------------------- precomputed tables in C
def ccases(tier, rng):
    from coords import SYSTEMS, random_params
    out = []
    for s in SYSTEMS:
        for _ in range(1 if tier == "quick" else 6):
            out.append(dict(coord=s, p=random_params(s, rng), N=[rng.randint(3, 9) for _ in range(3)], fp=rng.choice(["double", "double", "float"]),
                            seed=rng.randint(0, 10**6), simd=rng.choice([True, False])))
    return out


def run_c(c):
    """Compile the malloc/define/free functions and both read styles; compare every tabulated value."""
    import random
    from mpmath import mp, mpf
    import coords
    import nr
    nr.reset("BHaH")
    import nrpy.c_function as cfc
    import nrpy.params as par
    import nrpy.reference_metric as rm
    from nrpy.infrastructures.BHaH import rfm_precompute as rp
    rm.reference_metric.clear()
    par.set_parval_from_str("fp_type", c["fp"])
    mp.dps = 40
    coord, p = c["coord"], c["p"]
    P = rp.ReferenceMetricPrecompute(coord)
    pre = rm.reference_metric[coord + "_rfm_precompute"]
    rng = random.Random(c["seed"])
    N = c["N"]
    lo, hi = coords.domain(coord, p)
    xs = []
    for i in range(3):
        xs.append([float(lo[i] + (hi[i] - lo[i]) * mpf((k + 0.5 - 1) / (N[i] - 2 + 1e-9))) for k in range(N[i])] if N[i] > 2 else [float(lo[i] + (hi[i] - lo[i]) * mpf(0.3 * (k + 1))) for k in range(N[i])])
    if "Holey" in coord or "Wedge" in coord:
        xs[0] = [float(lo[0] + (hi[0] - lo[0]) * mpf((k + 0.5) / N[0])) for k in range(N[0])]
    # expected values through the geometry of the map (functions of one coordinate only)
    import re
    want = {}

    def f_of(nme):
        m = re.fullmatch(r"f(\d)_of_xx(\d)(?:__D+(\d+))?", nme)
        require(m, f"unknown tabulated function {nme}")
        return int(m.group(1)), int(m.group(2)), len(m.group(3) or "")

    def value(nme, x):
        k, dim, order = f_of(nme)
        j = coords.Jet.var(1, order + 1, 0, mpf(x))
        A = coords.radial
        if coord == "SinhCartesian":
            f = A(coord, p, j).diff(0)
        elif k == 0:
            f = A(coord, p, j)
        elif k in (1, 4):
            f = j.sin() if k == 1 else j.sin() * mpf(p["bScale"])
        elif k == 2:
            a = A(coord, p, j)
            f = (a * a + mpf(p["bScale"]) ** 2).sqrt()
        else:
            f = (A(coord, p, j, 2)).diff(0)
        return f.d(*([0] * order))

    members = [d.split()[-1].rstrip(";") for d in P.BHaH_defines_list]
    for nme in members:
        k, dim, order = f_of(nme)
        want[nme] = (dim, [value(nme, x) for x in xs[dim]])
    pars = "".join(f"const REAL {k} = {v!r};\n" for k, v in p.items()) + "const REAL PI = 3.14159265358979323846; const REAL SQRT1_2 = 0.70710678118654752440;\n"
    size = f"const int Nxx_plus_2NGHOSTS0={N[0]}, Nxx_plus_2NGHOSTS1={N[1]}, Nxx_plus_2NGHOSTS2={N[2]};\n"
    reads = "".join(f'for(int i{d}=0;i{d}<Nxx_plus_2NGHOSTS{d};i{d}++) {{ {P.readvr_str[d]}\n' + "".join(f'printf("{n} %d %.17g\\n", i{d}, (double){n});\n' for n in members if f_of(n)[1] == d) + "}\n" for d in range(3))
    reads2 = ""
    if c["simd"] and c["fp"] == "double":
        for d in range(3):
            reads2 += f'for(int i{d}=0;i{d}<Nxx_plus_2NGHOSTS{d};i{d}++) {{ {P.readvr_SIMD_outer_str[d]}\n' + "".join(f'{{double t[simd_width]; WriteSIMD(t, {n}); printf("{n} %d %.17g\\n", i{d}, t[simd_width-1]);}}\n' for n in members if f_of(n)[1] == d) + "}\n"
            reads2 += f'for(int i{d}=0;i{d}+simd_width<=Nxx_plus_2NGHOSTS{d};i{d}++) {{ {P.readvr_SIMD_inner_str[d]}\n' + "".join(f'{{double t[simd_width]; WriteSIMD(t, {n}); for(int l=0;l<simd_width;l++) printf("{n} %d %.17g\\n", i{d}+l, t[l]);}}\n' for n in members if f_of(n)[1] == d) + "}\n"
    src = f"""#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#define REAL {c['fp']}
#define MAYBE_UNUSED __attribute__((unused))
#include "{vp.REPO}/nrpy/helpers/simd_intrinsics.h"
typedef struct {{ {chr(10).join(sorted(set(P.BHaH_defines_list))) or 'int dummy;'} }} rfm_struct;
int main() {{ {size} {pars}
rfm_struct S, *rfmstruct = &S;
REAL *xx[3];
{"".join(f"static REAL x{i}[] = {{{', '.join(map(repr, xs[i]))}}}; xx[{i}] = x{i};" for i in range(3))}
{P.rfm_struct__malloc}
{P.rfm_struct__define}
{reads}
{reads2}
{P.rfm_struct__freemem}
return 0; }}
"""
    exe = vp.compile_c(src, flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-mavx2", "-mfma"])
    r = vp.run_exe(exe, env={"ASAN_OPTIONS": "detect_leaks=1"})
    require(r.returncode == 0, f"{coord}: rfm precompute program failed: {r.stderr.decode(errors='replace')[:800]}")
    tol = 1e-11 if c["fp"] == "double" else 5e-4
    seen = set()
    for line in r.stdout.decode().splitlines():
        n, i, v = line.split()
        w = want[n][1][int(i)]
        sc = max(abs(q) for q in want[n][1])
        require(abs(mpf(v) - w) <= tol * (abs(w) + sc), f"{coord}: tabulated {n}[{i}] = {v}, exact {mp.nstr(w, 15)} (params {p})")
        seen.add((n, int(i)))
    require(len(seen) == sum(N[want[n][0]] for n in set(members)), f"{coord}: not every table entry was read")
    return "tables" if members else None


C.add_list("tables", ccases, run_c, shards=6, budget=60, budget_thorough=600,
           rule="17 coordinate systems x random parameters, grid sizes and precision: generated table code compiled with ASan/UBSan; non-trivial: the system tabulates something")

if __name__ == "__main__":
    sys.exit(C.main())
