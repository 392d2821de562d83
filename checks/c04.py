#!/usr/bin/env python3
"""C04: generated finite-difference kernels equal the discrete operators applied to the grid data."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Violation, require

C = vp.Check("C04", assumptions=[
    "SIMD kernels: control-vector components are numeral-free (symbols, sums and products of symbols), as in every caller",
    "upwinded derivatives are used together with a control vector, as the documentation requires",
    "gridfunction, parameter and output names do not collide with the generator's temporaries (FDPart*)",
    "gcc with IEEE arithmetic; SIMD kernels are double precision (the generator refuses others)",
])
SCAL = ["uu", "vv", "b_aux", "KK"]
GFS = SCAL + ["wU0", "wU1", "wU2"] + ["hDD00", "hDD01", "hDD02", "hDD11", "hDD12", "hDD22"]
CTRL = ["vetU0", "vetU1", "vetU2"]
PARS = ["aa", "bb"]
NPT = 8
EPS = {"double": 2.3e-16, "float": 1.2e-7, "long double": 2.3e-16}


def split(gf):
    b = gf.rstrip("0123456789")
    return b, gf[len(b):]


def deriv_name(gf, op, dirs):
    b, i = split(gf)
    return f"{b}_{op}{i}{''.join(map(str, dirs))}"


def strategy():
    from hypothesis import strategies as st
    import exprgen as g
    import simdlib
    backs = simdlib.available()

    @st.composite
    def strat(draw):
        simd = draw(st.sampled_from([None, None] + backs))
        ctrl = draw(st.sampled_from([None, "gf", "gf", "expr", "param"]))
        ops = ["dD", "dD", "dDD", "dDD", "dKOD"] + (["dupD", "dupD", "dupD"] if ctrl else [])
        gpool = draw(st.lists(st.sampled_from(GFS + (CTRL if ctrl else [])), min_size=1, max_size=3, unique=True))
        names, meta = list(gpool) + PARS, {}
        for _ in range(draw(st.integers(1, 6))):
            gf = draw(st.sampled_from(gpool))
            op = draw(st.sampled_from(ops))
            d = [draw(st.integers(0, 2))]
            if op == "dDD":
                d = sorted(d + [draw(st.integers(0, 2))])
            n = deriv_name(gf, op, d)
            names += [n, n]
            meta[n] = [gf, op, d]
        e = g.system_strategy(n=(1, 3), max_leaves=6, names=tuple(names), fns=["sin", "exp"], rats=[], floats=False, pi=False, ipow=(-2, 4))
        exprs = draw(e)
        dn = sorted(meta)
        for i in range(len(exprs)):
            k = draw(st.integers(0, 3))
            terms = [["mul", ["v", draw(st.sampled_from(dn))], draw(st.sampled_from([["q", 3, 2], ["v", "aa"], ["v", gpool[0]], ["v", dn[0]], ["q", -1, 1]]))] for _ in range(k)]
            if terms:
                exprs[i] = ["add", exprs[i], *terms] if draw(st.booleans()) else ["add", *terms, ["v", dn[-1]]]
        return dict(
            exprs=exprs, meta=meta, simd=simd, ctrl=ctrl,
            order=2 * draw(st.integers(1, 5)),
            infra=draw(st.sampled_from(["BHaH", "BHaH", "ETLegacy", "CarpetX"])),
            fp="double" if simd else draw(st.sampled_from(["double", "double", "float", "long double"])),
            fdfun=draw(st.booleans()), golden=draw(st.sampled_from([False, False, True])),
            style=draw(st.sampled_from(["210", "012"])),
            groups={n: draw(st.sampled_from(["EVOL", "AUXEVOL"])) for n in ["uu", "vv", "b_aux", "KK", "wU", "hDD", "vetU"]},
            seed=draw(st.integers(0, 10 ** 6)), auto=draw(st.booleans()),
            dx=[draw(st.integers(1, 40)) / 16.0 for _ in range(3)],
            warm=draw(st.lists(st.sampled_from(["dD0", "dDD12", "dKOD1", "dD2"]), max_size=2)),
        )
    return strat()


def run(c):
    import random
    import mpmath as mp
    import exprgen as g
    import fdmodel
    import nr
    import simdlib
    import sympy as sp
    nr.reset(c["infra"])
    import nrpy.c_codegen as ccg
    import nrpy.finite_difference as fin
    import nrpy.grid as gri
    import nrpy.indexedexp as ixp
    import nrpy.params as par
    infra, fp, order = c["infra"], c["fp"], c["order"]
    REAL = "REAL" if infra == "BHaH" else "CCTK_REAL"
    G = c["groups"]
    for s in SCAL:
        gri.register_gridfunctions(s, group=G[s])
    gri.register_gridfunctions_for_single_rank1("wU", group=G["wU"])
    gri.register_gridfunctions_for_single_rank2("hDD", group=G["hDD"], symmetry="sym01")
    vet = gri.register_gridfunctions_for_single_rank1("vetU", group=G["vetU"])
    par.register_CodeParameters(REAL, "t", PARS + ["cx", "cy", "cz"], 1.0)
    par.set_parval_from_str("fd_order", order)

    exprs = c["exprs"]
    syms = [g.to_sympy(e, assume={}) for e in exprs]
    free = set().union(*[g.symbols_of(e) for e in exprs])
    for s in syms:
        if s.has(sp.zoo, sp.nan, sp.oo, -sp.oo, sp.I, sp.AccumBounds) or any(a.is_number and not a.is_rational for a in sp.preorder_traversal(s)):
            return None
    if not (free & set(c["meta"])) and not c["auto"]:
        return None
    rng = random.Random(c["seed"])
    kw = dict(enable_fd_codegen=True, enable_simd=bool(c["simd"]), enable_fd_functions=c["fdfun"], enable_GoldenKernels=c["golden"],
              mem_alloc_style=c["style"], fp_type=fp, include_braces=rng.random() < .5)
    if c["auto"]:
        kw["automatically_read_gf_data_from_memory"] = True
    ctrl_expr = None
    if c["ctrl"] == "gf":
        kw["upwind_control_vec"] = vet
    elif c["ctrl"] == "param":
        kw["upwind_control_vec"] = list(sp.symbols("cx cy cz"))
    elif c["ctrl"] == "expr":
        kw["upwind_control_vec"] = [vet[0] * sp.Symbol("cx"), vet[1], vet[2] + sp.Symbol("cz")] if c["simd"] else [
            2 * vet[0] - sp.Symbol("cx"), -vet[1], vet[2] + sp.Symbol("cz")]
    # earlier kernels in the same process must not matter
    for op in c["warm"]:
        ccg.c_codegen([sp.Symbol(f"uu_{op}") * sp.Symbol("vv")], ["junk"], enable_fd_codegen=True, enable_fd_functions=c["fdfun"])
    names = [f"out{j}[i0]" for j in range(len(syms))]
    syms_copy = list(syms)
    code = ccg.c_codegen(syms, names, **kw)
    require(syms == syms_copy, "the caller's expression list was modified")
    pre = fin.construct_FD_functions_prefunc() if c["fdfun"] else ""

    # --- grid with exactly the ghost points the operators may touch
    h = order // 2
    ng = [0, 0, 0]
    for n in free & set(c["meta"]):
        _, op, d = c["meta"][n]
        for a in d:
            ng[a] = max(ng[a], h + (1 if op in ("dKOD", "dupD") else 0))
    N = [ng[0] * 2 + NPT, ng[1] * 2 + 1, ng[2] * 2 + 1]
    allg = GFS + CTRL
    tot = N[0] * N[1] * N[2]
    ev, aux, _ = [], [], 0
    for n in allg:
        (ev if G[split(n)[0]] == "EVOL" else aux).append(n)
    data = {n: [rng.randint(-96, 96) / 64.0 for _ in range(tot)] for n in allg}
    P = {n: rng.randint(-96, 96) / 64.0 for n in PARS + ["cx", "cy", "cz"]}
    used = set(free)
    for n in free & set(c["meta"]):
        used.add(c["meta"][n][0])
    ctype = fp
    src = simdlib.prelude(c["simd"]) if c["simd"] else "#include <stdio.h>\n#include <math.h>\n#include <stdlib.h>\n" + \
        f"#define REAL {ctype}\n#define CCTK_REAL {ctype}\n#define UPWIND_ALG(x) ((x) > 0.0 ? 1.0 : 0.0)\n"
    src += "#undef MAYBE_UNUSED\n#define MAYBE_UNUSED __attribute__((unused))\n#define NO_INLINE __attribute__((noinline))\n#define CCTK_DEVICE\n#define CCTK_HOST\n"
    src += f"#define IDX3(i,j,k) ((i)+{N[0]}*((j)+{N[1]}*(k)))\n#define IDX4(g,i,j,k) ((i)+{N[0]}*((j)+{N[1]}*((k)+{N[2]}*(g))))\n#define CCTK_GFINDEX3D(gh,i,j,k) IDX3(i,j,k)\n"
    for lst in (ev, aux) if infra == "BHaH" else ():
        for i, n in enumerate(lst):
            src += f"#define {n.upper()}GF {i}\n"
    arr = lambda vals: "{" + ",".join(repr(v) for v in vals) + "}"
    if infra == "BHaH":
        src += f"static const REAL in_gfs[] = {arr([v for n in ev for v in data[n]] or [0.0])};\n"
        src += f"static const REAL auxevol_gfs[] = {arr([v for n in aux for v in data[n]] or [0.0])};\n"
    elif infra == "ETLegacy":
        for n in allg:
            src += f"static const REAL {n}GF[] = {arr(data[n])};\n"
    else:
        for n in allg:
            src += f"static const REAL {n}_data[] = {arr(data[n])};\n#define {n}GF(i) {n}_data[i]\n"
    src += pre + "\n"
    # FD functions must have internal consistency with other kernels in the file: compile as emitted
    src += "int main(void) {\n"
    for j in range(len(syms)):
        src += f"static REAL out{j}[{N[0] + 16}];\n"
    T, k = ("REAL_SIMD_ARRAY", "ConstSIMD(%r)") if c["simd"] else ("REAL", "%r")
    for n in sorted(P):
        src += f"const {T} {n} = {k % P[n]};\n"
    inv = [1.0 / x for x in c["dx"]]
    for a in range(3):
        v = inv[a]
        if fp == "float":
            import struct
            v = inv[a] = struct.unpack("f", struct.pack("f", v))[0]
        src += f"const {T} invdxx{a} = {k % v};\n"
    step = "simd_width" if c["simd"] else "1"
    src += f"const int i1={ng[1]}, i2={ng[2]};\nfor (int i0={ng[0]}; i0<{ng[0] + NPT}; i0+={step}) {{\n"
    src += f"struct {{ int I; int DI[3]; }} p = {{ IDX3(i0,i1,i2), {{1,{N[0]},{N[0] * N[1]}}} }};\n"
    src += code + "\n}\n"
    src += 'for (int i=0;i<%d;i++) { ' % NPT
    for j in range(len(syms)):
        src += f'printf("%.18Lg ", (long double)out{j}[i+{ng[0]}]);'
    src += 'printf("\\n"); }\nreturn 0;}\n'
    flags = simdlib.flags(c["simd"]) if c["simd"] else ["-O0"]
    if not c["simd"]:
        flags += ["-fsanitize=address", "-fno-sanitize-recover"] if c["seed"] % 3 == 0 else []
    exe = vp.compile_c(src, flags=flags)
    pr = vp.run_exe(exe)
    require(pr.returncode == 0, f"kernel aborted (rc {pr.returncode}): {pr.stderr.decode(errors='replace')[:1500]}")
    got = [l.split() for l in pr.stdout.decode().splitlines()]
    require(len(got) == NPT, f"kernel output {pr.stdout[:300]}")

    # --- oracle
    g.RANGE[:] = [mp.mpf(10) ** 15, mp.mpf(10) ** -15] if fp == "float" else [mp.mpf(10) ** 60, mp.mpf(10) ** -60]

    def at(n, ii):
        return mp.mpf(data[n][ii[0] + N[0] * (ii[1] + N[1] * ii[2])])

    def apply(gf, op, ii):
        st, dirs = fdmodel.stencil3d(op, order)
        v, b = mp.mpf(0), mp.mpf(0)
        for o, w in st.items():
            t = at(gf, [ii[a] + o[a] for a in range(3)]) * w.numerator / w.denominator
            v += t
            b += 3 * abs(t)
        for a in dirs:
            v *= mp.mpf(inv[a])
            b *= mp.mpf(inv[a])
        return v, 4 * b + 4 * abs(v)

    decided = 0
    for ip in range(NPT):
        ii = [ng[0] + ip, ng[1], ng[2]]
        env = {n: mp.mpf(P[n]) for n in P}
        for n in allg:
            env[n] = at(n, ii)
        cv = {"gf": [env["vetU0"], env["vetU1"], env["vetU2"]], "param": [env["cx"], env["cy"], env["cz"]],
              "expr": [env["vetU0"] * env["cx"], env["vetU1"], env["vetU2"] + env["cz"]] if c["simd"] else
              [2 * env["vetU0"] - env["cx"], -env["vetU1"], env["vetU2"] + env["cz"]], None: None}[c["ctrl"]]
        for n in free & set(c["meta"]):
            gf, op, d = c["meta"][n]
            if op == "dupD":
                up = apply(gf, f"dupD{d[0]}", ii)
                dn = apply(gf, f"ddnD{d[0]}", ii)
                v = up if cv[d[0]] > 0 else dn
                env[n] = (v[0], up[1] + 2 * dn[1] + abs(up[0]) + 2 * abs(dn[0]))
            else:
                env[n] = apply(gf, op + "".join(map(str, d)), ii)
        for j, e in enumerate(exprs):
            try:
                v, b = g.evaluate(e, env)
            except g.Skip:
                continue
            if fp == "float" and b > 1e4 * (abs(v) + 1e-30):
                continue
            tol = EPS[fp] * (1e4 if fp != "float" else 100) * (b + abs(v)) + 1e-28
            x = mp.mpf(got[ip][j]) if got[ip][j] not in ("nan", "-nan", "inf", "-inf") else mp.nan
            require(mp.isfinite(x) and abs(x - v) <= tol,
                    f"{infra} order {order} {fp} simd={c['simd']} fdfunctions={c['fdfun']} ctrl={c['ctrl']}: output {j} = {syms[j]} at point {ii}: kernel {got[ip][j]}, discrete operators give {mp.nstr(v, 17)} (tol {mp.nstr(tol, 3)})")
            decided += 1
    import shutil
    shutil.rmtree(os.path.dirname(exe), ignore_errors=True)
    ops = {c["meta"][n][1] for n in free & set(c["meta"])}
    return ("+".join(sorted(ops)) or "nod") if decided >= 4 and ops else None


C.add("kernels", strategy, run, quick=640, thorough=12000, shards=8, shards_thorough=8, budget=110, budget_thorough=1500,
      rule="random expressions over gridfunctions, parameters and derivative symbols x fd order 2-10 x infrastructure x SIMD/precision/FD-function/upwinding options on random grid data; non-trivial: >=4 decisive comparisons and a derivative in the expression")

if __name__ == "__main__":
    sys.exit(C.main())
