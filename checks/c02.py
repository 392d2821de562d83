#!/usr/bin/env python3
"""C02: vectorised kernels compute, lane by lane, the symbolic expression."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Violation, require

C = vp.Check("C02", assumptions=[
    "exp/sin/cos on vectors are compiler-provided; the harness supplies lane-wise stand-ins with the same names",
    "instruction sets the CPU lacks are skipped (reported through the labels)",
    "numeric constants in the expressions are rational, as cse/SIMD conversion requires",
])
NAMES = ["x", "y", "z", "w"]
NP = 8
FNS = ["sin", "cos", "exp", "Abs"]
RATS = [(1, 2), (-1, 2), (-3, 2), (-5, 2), (1, 2)]


def strategy():
    from hypothesis import strategies as st
    import exprgen as g
    import simdlib

    backs = simdlib.available()

    @st.composite
    def strat(draw):
        exprs = draw(g.system_strategy(n=(1, 4), max_leaves=10, fns=FNS, rats=RATS, floats=False, pi=False,
                                       ipow=(-7, 9)))
        return dict(
            exprs=exprs,
            pts=draw(g.points_strategy(NAMES, NP)),
            backend=draw(st.sampled_from(backs)),
            infra=draw(st.sampled_from(["BHaH", "ETLegacy", "CarpetX"])),
            opts=dict(
                cse_sorting=draw(st.sampled_from(["canonical", "none"])),
                cse_varprefix=draw(st.sampled_from(["", "Pre"])),
                enable_cse_preprocess=draw(st.booleans()),
                enable_GoldenKernels=draw(st.sampled_from([False, False, True])),
                simd_find_more_subs=draw(st.booleans()),
                simd_find_more_FMAsFMSs=draw(st.booleans()),
                simd_clean_NegativeOnes_after_processing=draw(st.booleans()),
                include_braces=draw(st.booleans()),
                verbose=draw(st.booleans()),
            ),
        )
    return strat()


def run(case):
    import nr
    nr.reset()
    import nrpy.params as par
    import nrpy.c_codegen as ccg
    import exprgen as g
    import simdlib
    import sympy as sp
    from c01 import judge
    exprs, pts, o = case["exprs"], case["pts"], dict(case["opts"])
    syms = [g.to_sympy(e) for e in exprs]
    for s in syms:
        if s.has(sp.zoo, sp.nan, sp.oo, -sp.oo, sp.I, sp.AccumBounds):
            return None
        # numbers the SIMD conversion does not claim to handle: irrational constants
        if any(a.is_number and not a.is_rational for a in sp.preorder_traversal(s)):
            return None
        for p in s.atoms(sp.Pow):
            if not p.exp.is_Integer and (p.exp.p, p.exp.q) not in RATS:
                return None
        if s.atoms(sp.sign, sp.log):
            return None
    par.set_parval_from_str("Infrastructure", case["infra"])
    names = [f"const REAL_SIMD_ARRAY o{i}" if o["include_braces"] is False else f"o{i}" for i in range(len(syms))]
    code = ccg.c_codegen(syms, names, enable_simd=True, **o)
    b = case["backend"]
    src = simdlib.prelude(b)
    src += "static void kernel(const double in[%d][%d], double out[%d][%d]) {\n for (int p = 0; p < %d; p += simd_width) {\n" % (
        len(NAMES), NP, len(syms), NP, NP)
    for i, n in enumerate(NAMES):
        src += f"  const REAL_SIMD_ARRAY {n} = ReadSIMD(&in[{i}][p]);\n"
    if o["include_braces"]:
        for i in range(len(syms)):
            src += f"  REAL_SIMD_ARRAY o{i};\n"
    src += code + "\n"
    for i in range(len(syms)):
        src += f"  WriteSIMD(&out[{i}][p], o{i});\n"
    src += " }\n}\nint main(void) { static const double in[%d][%d] = {" % (len(NAMES), NP)
    for n in NAMES:
        src += "{" + ",".join(repr(p[n]) for p in pts) + "},"
    src += "}; double out[%d][%d]; kernel(in, out);\n" % (len(syms), NP)
    src += 'for (int p=0;p<%d;p++) { for(int j=0;j<%d;j++) printf("%%.18g ", out[j][p]); printf("\\n"); } return 0; }\n' % (NP, len(syms))
    exe = vp.compile_c(src, flags=simdlib.flags(b))
    got = [l.split() for l in vp.run_exe(exe).stdout.decode().splitlines()]
    n = judge(exprs, pts, got, "double", f"backend {b}: ")
    import shutil
    shutil.rmtree(os.path.dirname(exe), ignore_errors=True)
    return b if n >= 3 and max(g.size(e) for e in exprs) >= 5 else None


C.add("kernels", strategy, run, quick=900, thorough=20000, shards=8, shards_thorough=8, budget=100, budget_thorough=1500,
      rule="random systems of 1-4 expressions x SIMD options x instruction set, 8 distinct lanes; non-trivial: >=3 well-conditioned comparisons, an expression of >=5 nodes")


# every macro of the header on every instruction set
MACROS = {
    "AddSIMD": (2, lambda a, b: a + b), "SubSIMD": (2, lambda a, b: a - b), "MulSIMD": (2, lambda a, b: a * b),
    "DivSIMD": (2, lambda a, b: a / b), "SqrtSIMD": (1, None), "AbsSIMD": (1, abs),
    "ExpSIMD": (1, None), "SinSIMD": (1, None), "CosSIMD": (1, None),
    "FusedMulAddSIMD": (3, lambda a, b, c: a * b + c), "FusedMulSubSIMD": (3, lambda a, b, c: a * b - c),
    "NegFusedMulAddSIMD": (3, lambda a, b, c: -a * b + c), "NegFusedMulSubSIMD": (3, lambda a, b, c: -a * b - c),
    "UPWIND_ALG": (1, lambda a: 1.0 if a > 0 else 0.0),
}


ALL = sorted(MACROS) + ["HorizAddSIMD", "ConstSIMD", "SetZeroSIMD", "ReadWrite"]


def macro_cases(tier, rng):
    import simdlib
    special = [0.0, -0.0, 1.0, -1.0, 1e-300, -1e-300, 5e-324, 2.0, 0.5]
    cases = []
    for k in range(6 if tier == "quick" else 200):
        for b in simdlib.available():
            vals = [rng.choice(special) if rng.random() < .2 else rng.uniform(-1, 1) * 10 ** rng.randint(-2, 3) for _ in range(24)]
            cases.append(dict(backend=b, vals=vals, expr_args=rng.randint(0, 2)))
    return cases


def run_macros(case):
    import math
    import simdlib
    b, v = case["backend"], case["vals"]
    src = simdlib.prelude(b)
    src += "int main(void) { const REAL_SIMD_ARRAY upwind_Integer_0 = ConstSIMD(0.0); const REAL_SIMD_ARRAY upwind_Integer_1 = ConstSIMD(1.0);\n"
    src += "double A[8]={%s},B[8]={%s},C[8]={%s},O[8+8];\n" % tuple(
        ",".join(float(x).hex() for x in v[i * 8:(i + 1) * 8]) for i in range(3))
    src += 'printf("%d\\n", (int)simd_width);\n'
    A, B, Cc = v[0:8], v[8:16], v[16:24]
    k = 2 if case["expr_args"] else 1
    for m in ALL:
        src += "for(int i=0;i<16;i++) O[i]=-77; for (int p=0;p<8;p+=simd_width) { const REAL_SIMD_ARRAY a=ReadSIMD(&A[p]), b=ReadSIMD(&B[p]), c=ReadSIMD(&C[p]);\n"
        if m in MACROS:
            args = ["a", "b", "c"][:MACROS[m][0]]
            if k == 2:  # compound arguments: macro hygiene
                args = [f"AddSIMD({x},{x})" if case["expr_args"] == 1 else f"{x} + {x}" for x in args]
            src += f"WriteSIMD(&O[p], {m}({', '.join(args)}));\n"
        elif m == "HorizAddSIMD":
            src += "O[p] = HorizAddSIMD(a); for (int q=p+1;q<p+simd_width;q++) O[q]=0;\n"
        elif m == "ConstSIMD":
            src += "WriteSIMD(&O[p], ConstSIMD(A[0]));\n"
        elif m == "SetZeroSIMD":
            src += "WriteSIMD(&O[p], SetZeroSIMD);\n"
        else:
            src += "WriteSIMD(&O[p], b);\n"
        src += '} for(int i=0;i<16;i++) printf("%.18g ", O[i]); printf("\\n");\n'
    src += "return 0; }\n"
    exe = vp.compile_c(src, flags=simdlib.flags(b))
    lines = vp.run_exe(exe).stdout.decode().splitlines()
    import shutil
    shutil.rmtree(os.path.dirname(exe), ignore_errors=True)
    w = int(lines[0])
    require(w == {"scalar": 1, "sse2": 2, "sse3": 2, "sse2fma": 2, "avx": 4, "avxfma": 4, "avx512": 8}[b], f"{b}: simd_width = {w}")
    for m, line in zip(ALL, lines[1:]):
        got = [float(x) for x in line.split()]
        require(all(x == -77 for x in got[8:]), f"{b} {m}: wrote beyond its lanes")
        if m == "HorizAddSIMD":
            for p in range(0, 8, w):
                s = math.fsum(A[p:p + w])
                tol = 1e-13 * (sum(abs(x) for x in A[p:p + w]) + 1e-300)
                require(abs(got[p] - s) <= tol, f"{b} HorizAddSIMD({A[p:p+w]}) = {got[p]}, want {s}")
            continue
        for i in range(8):
            a_, b_, c_ = k * A[i], k * B[i], k * Cc[i]
            if m in MACROS:
                n, f = MACROS[m]
                f = {"SqrtSIMD": math.sqrt, "ExpSIMD": math.exp, "SinSIMD": math.sin, "CosSIMD": math.cos}.get(m, f)
                try:
                    x = f(*(a_, b_, c_)[:n])
                except (ValueError, ZeroDivisionError, OverflowError):
                    continue
            else:
                x = {"ConstSIMD": A[0], "SetZeroSIMD": 0.0, "ReadWrite": B[i]}[m]
            mag = abs(x) + (abs(a_ * b_) + 3 * abs(c_) if "Fused" in m else abs(a_) + (abs(b_) if m in ("AddSIMD", "SubSIMD") else 0))
            if m in ("UPWIND_ALG", "AbsSIMD", "ConstSIMD", "SetZeroSIMD", "ReadWrite"):
                ok = got[i] == x
            else:
                ok = abs(got[i] - x) <= 1e-14 * mag + 1e-307 or (math.isinf(x) and got[i] == x)
            require(ok, f"{b} {m} lane {i}: a={a_!r} b={b_!r} c={c_!r}: got {got[i]!r}, want {x!r}")
    return b


C.add_list("header", macro_cases, run_macros, shards=2, budget=80,
           rule="every macro of the SIMD header x every instruction set the CPU has x random and special operands, compound arguments included")

if __name__ == "__main__":
    sys.exit(C.main())
