#!/usr/bin/env python3
"""C01: generated scalar C evaluates to the symbolic expression."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Violation, require

C = vp.Check("C01", assumptions=[
    "gcc 13 with IEEE arithmetic and glibc libm is the reference C implementation",
    "input symbols do not reuse the generator's temporary-variable names (prefix + tmp<N>)",
    "points where the expression is not real, or is worse conditioned than the tolerance model, are skipped",
])
NAMES = ["x", "y", "z", "w"]
EPS = {"double": 2.3e-16, "float": 1.2e-7, "long double": 2.3e-16}
SAFETY = {"double": 1e4, "float": 100.0, "long double": 1e4}


def case_strategy(fd=False):
    from hypothesis import strategies as st
    import exprgen as g

    @st.composite
    def strat(draw):
        exprs = draw(g.system_strategy(n=(1, 4), max_leaves=10))
        return dict(
            exprs=exprs,
            pts=draw(g.points_strategy(NAMES, 6)),
            opts=dict(
                enable_cse=draw(st.sampled_from([True, True, True, False])),
                cse_sorting=draw(st.sampled_from(["canonical", "none"])),
                cse_varprefix=draw(st.sampled_from(["", "Pre"])),
                enable_cse_preprocess=draw(st.booleans()),
                enable_GoldenKernels=draw(st.sampled_from([False, False, True])),
                include_braces=draw(st.booleans()),
                verbose=draw(st.booleans()),
                fp_type=draw(st.sampled_from(["double", "double", "float", "long double"])),
                rational_const_alias=draw(st.sampled_from(["static const", "const"])),
            ),
            via_param=draw(st.booleans()),
            infra=draw(st.sampled_from(["BHaH", "NRPy", "ETLegacy"])),
            subst=draw(st.sampled_from([None, None, None, {"x": "_new"}, {"x": "2", "y": "_b"}])),
            assume=draw(st.sampled_from([{"real": True}, {}, {"real": True}])),
        )

    return strat()


def oracle(exprs, pts, fp):
    import exprgen as g
    import mpmath as mp
    g.RANGE[:] = [mp.mpf(10) ** 20, mp.mpf(10) ** -20] if fp == "float" else [mp.mpf(10) ** 80, mp.mpf(10) ** -80]
    out = []
    for p in pts:
        # the C kernel sees the coordinates rounded to its own type
        import struct
        q = {k: (struct.unpack("f", struct.pack("f", v))[0] if fp == "float" else v) for k, v in p.items()}
        row = []
        for e in exprs:
            try:
                row.append(g.evaluate(e, q))
            except g.Skip:
                row.append(None)
        out.append(row)
    return out


def judge(exprs, pts, got, fp, what="", signature=None):
    """Compare printed numbers with the oracle; returns number of decisive comparisons."""
    want = oracle(exprs, pts, fp)
    n = 0
    for ip, p in enumerate(pts):
        for ie in range(len(exprs)):
            w = want[ip][ie]
            if w is None:
                continue
            v, b = w
            tol = EPS[fp] * SAFETY[fp] * (b + abs(v)) + 1e-28
            if fp == "float" and b > 1e5 * (abs(v) + 1e-30):
                continue
            import mpmath as mp
            try:
                gv = mp.mpf(got[ip][ie])
            except ValueError:
                gv = mp.nan
            if not (abs(gv - v) <= tol):
                raise Violation(
                    f"{what}expression {ie} at {p}: C gives {got[ip][ie]}, exact value {mp.nstr(v, 18)} (tolerance {mp.nstr(mp.mpf(tol), 4)})", signature)
            if tol < 1e-2 * abs(v):
                n += 1
    return n


def run(case):
    import nr
    nr.reset()
    import nrpy.params as par
    import nrpy.c_codegen as ccg
    import exprgen as g
    exprs, pts, o = case["exprs"], case["pts"], dict(case["opts"])
    fp = o["fp_type"]
    par.set_parval_from_str("Infrastructure", case["infra"])
    if case["via_param"]:
        par.set_parval_from_str("fp_type", fp)
        o.pop("fp_type")
    syms = [g.to_sympy(e, assume=case["assume"]) for e in exprs]
    import sympy as sp
    for s in syms:
        if s.has(sp.zoo, sp.nan, sp.oo, -sp.oo, sp.I, sp.AccumBounds):
            return None
    subst = case["subst"]
    rename = {n: n for n in NAMES}
    if subst:
        rename.update({k: k + v for k, v in subst.items()})
        o["postproc_substitution_dict"] = subst
    before = [sp.srepr(s) for s in syms]
    outs = [f"out[{i}]" for i in range(len(syms))]
    arg = (syms[0], outs[0]) if len(syms) == 1 and not o["verbose"] else (syms, outs)
    code = ccg.c_codegen(arg[0], arg[1], **o)
    require([sp.srepr(s) for s in syms] == before and outs == [f"out[{i}]" for i in range(len(syms))],
            "c_codegen modified its input lists")
    T = fp
    src = "#include <stdio.h>\n#include <math.h>\n"
    src += f"#define REAL {T}\n#define CCTK_REAL {T}\n#define MAYBE_UNUSED __attribute__((unused))\n"
    src += "void kernel(const REAL *in, REAL *out) {\n"
    for i, n in enumerate(NAMES):
        src += f"  const REAL {rename[n]} = in[{i}];\n"
    src += code + "\n}\n"
    src += "static const double P[][%d] = {\n" % len(NAMES)
    for p in pts:
        src += "{" + ",".join(repr(p[n]) for n in NAMES) + "},\n"
    src += "};\nint main(void){ for(int k=0;k<%d;k++){ REAL in[%d], out[%d];" % (len(pts), len(NAMES), len(syms))
    src += "for(int j=0;j<%d;j++) in[j]=(REAL)P[k][j]; kernel(in,out);" % len(NAMES)
    src += 'for(int j=0;j<%d;j++) printf("%%.20Lg ", (long double)out[j]); printf("\\n");} return 0;}\n' % len(syms)
    exe = vp.compile_c(src, flags=["-O0", "-D_GNU_SOURCE"])
    p = vp.run_exe(exe)
    got = [l.split() for l in p.stdout.decode().splitlines()]
    huge = any(abs(i) >= 2**63 for x in syms for i in x.atoms(sp.Integer))
    n = judge(exprs, pts, got, fp, signature="integer-literal-ge-2^63" if huge else None)
    import shutil
    shutil.rmtree(os.path.dirname(exe), ignore_errors=True)
    if n >= 3 and max(g.size(e) for e in exprs) >= 5:
        return f"{fp}/{'cse' if o['enable_cse'] else 'nocse'}"
    return None


C.add("scalar", case_strategy, run, quick=1000, thorough=20000, shards=8, shards_thorough=8, budget=60, budget_thorough=1500,
      rule="random systems of 1-4 expressions x codegen options; non-trivial: >=3 well-conditioned comparisons and an expression of >=5 nodes")


# --- every power the generator special-cases, on every type and option -------------
def pow_cases(tier, rng):
    # probe of the listed finding: an integer constant that no C integer type holds
    cases = [dict(exprs=[["mul", ["q", 10**20, 1], ["v", "x"]]], pts=[{n: 1.5 for n in NAMES}],
                  opts=dict(enable_cse=True, cse_sorting="canonical", cse_varprefix="", enable_cse_preprocess=False,
                            enable_GoldenKernels=False, include_braces=True, verbose=False, fp_type="double",
                            rational_const_alias="static const"),
                  via_param=False, infra="BHaH", subst=None, assume={"real": True})]
    ints = list(range(-9, 11))
    rats = [(p, q) for q in (2, 3, 4, 5, 6, 7) for p in range(-9, 10) if p % q or q == 1]
    from math import gcd
    rats = [(p, q) for p, q in rats if gcd(abs(p), q) == 1 and p]
    for fp in ("double", "float", "long double"):
        for cse in (True, False):
            for infra in ("BHaH",):
                exprs = []
                for n in ints:
                    exprs.append(["powi", ["v", "x"], n])
                    exprs.append(["mul", ["v", "y"], ["powi", ["add", ["v", "x"], ["v", "y"]], n]])
                for p, q in rats:
                    exprs.append(["powq", ["v", "x"], p, q])
                    exprs.append(["mul", ["q", -3, 2], ["powq", ["add", ["v", "x"], ["mul", ["v", "y"], ["v", "z"]]], p, q]])
                for f in ("0.5", "-0.5", "2.0", "1.5", "-1.0", "3.0", "-2.0", "0.25"):
                    exprs.append(["fpow", f])
                rng.shuffle(exprs)
                for k in range(0, len(exprs), 12):
                    pts = [{n: round(rng.uniform(0.4, 1.9), 5) for n in NAMES} for _ in range(3)]
                    cases.append(dict(exprs=[e if e[0] != "fpow" else ["fn", "_fpow" + e[1], ["v", "x"]] for e in exprs[k:k + 12]],
                                      pts=pts,
                                      opts=dict(enable_cse=cse, cse_sorting="canonical", cse_varprefix="", enable_cse_preprocess=bool(rng.random() < .3),
                                                enable_GoldenKernels=False, include_braces=True, verbose=False, fp_type=fp,
                                                rational_const_alias="static const"),
                                      via_param=False, infra=infra, subst=None, assume={"real": True}))
    return cases


def run_pow(case):
    import exprgen as g
    import mpmath as mp
    import sympy as sp
    for f in ("0.5", "-0.5", "2.0", "1.5", "-1.0", "3.0", "-2.0", "0.25"):
        g.MPF["_fpow" + f] = (lambda ff: lambda a: mp.power(a, mp.mpf(ff)))(f)
        setattr(sp, "_fpow" + f, (lambda ff: lambda a: sp.Pow(a, sp.Float(ff)))(f))
    run(case)
    return "pow"


C.add_list("powers", pow_cases, run_pow, budget=60, shards=4,
           rule="every integer exponent -9..10, rational p/q with q<=7 and float exponents, on all three types with and without CSE")


# --- temporaries declared by the caller that later expressions depend on ----------
def tmp_strategy():
    from hypothesis import strategies as st
    import exprgen as g

    @st.composite
    def strat(draw):
        k = draw(st.integers(1, 3))
        names = list(NAMES)
        tmps = []
        base_kw = dict(max_leaves=5, floats=False)
        for i in range(k):
            e = draw(g.expr_strategy(names=tuple(names), **base_kw))
            tmps.append(["add", e, ["mul", ["v", "y"], ["v", "w"]]])
            names = names + [f"T{i}"]
        finals = draw(st.lists(g.expr_strategy(names=tuple(names), **base_kw), min_size=1, max_size=2))
        finals[0] = ["add", finals[0], ["mul", ["v", f"T{k-1}"], ["v", "x"]]]
        return dict(tmps=tmps, finals=finals, pts=draw(g.points_strategy(NAMES, 4)),
                    pre=draw(st.booleans()), prefix=draw(st.sampled_from(["", "Q"])))
    return strat()


def run_tmp(case):
    import nr
    nr.reset()
    import nrpy.c_codegen as ccg
    import exprgen as g
    import sympy as sp
    k = len(case["tmps"])
    T = [sp.Symbol(f"T{i}", real=True) for i in range(k)]
    te = [g.to_sympy(e) for e in case["tmps"]]
    fe = [g.to_sympy(e) for e in case["finals"]]
    for s in te + fe:
        if s.has(sp.zoo, sp.nan, sp.oo, -sp.oo, sp.I, sp.AccumBounds):
            return None
    if len(set(te)) != len(te) or any(t.is_number for t in te):
        return None
    names = [f"T{i}" for i in range(k)]
    outs = [f"out[{i}]" for i in range(len(fe))]
    code = ccg.c_codegen(te + fe, names + outs, verbose=False, SCALAR_TMP_varnames=names,
                         SCALAR_TMP_sympyexprs=T + [None] * len(fe), enable_cse_preprocess=case["pre"],
                         cse_varprefix=case["prefix"])

    def sub(e, m):
        if e[0] == "v":
            return m.get(e[1], e)
        return [e[0]] + [sub(x, m) if isinstance(x, list) else x for x in e[1:]]
    m = {}
    for i, e in enumerate(case["tmps"]):
        m[f"T{i}"] = sub(e, m)
    full = [sub(e, m) for e in case["finals"]]
    if max(g.size(e) for e in full) > 400:
        return None
    src = "#include <stdio.h>\n#include <math.h>\n#define REAL double\nvoid kernel(const REAL *in, REAL *out) {\n"
    for i, n in enumerate(NAMES):
        src += f"  const REAL {n} = in[{i}];\n"
    src += code + "}\nint main(void){double o[8];\n"
    for p in case["pts"]:
        src += "{double in[]={" + ",".join(repr(p[n]) for n in NAMES) + "}; kernel(in,o);"
        src += 'for(int j=0;j<%d;j++) printf("%%.18g ", o[j]); printf("\\n");}\n' % len(fe)
    src += "return 0;}\n"
    exe = vp.compile_c(src)
    got = [l.split() for l in vp.run_exe(exe).stdout.decode().splitlines()]
    n = judge(full, case["pts"], got, "double", "with caller-named temporaries: ")
    return "tmp" if n >= 2 else None


C.add("caller_temporaries", tmp_strategy, run_tmp, quick=100, thorough=3000, shards=2, budget=60,
      rule="chains of 1-3 caller-named temporaries used by later outputs; non-trivial: >=2 well-conditioned comparisons")

if __name__ == "__main__":
    sys.exit(C.main())
