#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json: run after editing."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=observe))


EXP = "Exploration: no counterexample among the generated cases (counts in the evidence file); says nothing about inputs not generated. "

prop("C01", "Generated scalar C computes the symbolic expression",
     "For every list of symbolic expressions and every combination of scalar code-generation options (with or without common-subexpression elimination, factoring preprocessing, caller-named temporaries, symbol renaming, float/double/long double), the emitted C compiles and assigns to each output the value of its expression, up to rounding in the chosen floating-point type. The caller's expression and name lists are left untouched.",
     ["inputs", "programs", "configurations"],
     "every real, well-conditioned expression built from arithmetic, integer and rational powers and the elementary functions, every option combination, every evaluation point",
     "The doctests compare the text emitted for about a dozen fixed expressions; they never compile it for random expressions, option combinations or non-default precisions.",
     ["nrpy/c_codegen.py", "nrpy/helpers/custom_c_codegen_functions.py", "nrpy/helpers/cse_preprocess_postprocess.py"],
     [("c_codegen", "nrpy/c_codegen.py"), ("custom_functions_for_SymPy_ccode", "nrpy/helpers/custom_c_codegen_functions.py"), ("cse_preprocess/cse_postprocess", "nrpy/helpers/cse_preprocess_postprocess.py")],
     "property-based differential testing: random expression systems x options, compiled with gcc, against a 40-digit mpmath evaluator with a rounding-error bound",
     EXP + "Trusts gcc/glibc, mpmath and the harness' own expression evaluator (independent of SymPy).")

prop("C02", "SIMD kernels equal the scalar meaning on every lane and instruction set",
     "For every list of expressions made of sums, products, quotients, integer powers, square roots and their reciprocals, absolute values, exp, sin and cos, and every combination of vectorisation options, the emitted vector code compiles against the shipped intrinsics header and each lane holds the value of the expression at that lane's inputs, for every supported instruction set and for the scalar fallback. Every operation the header provides has its documented meaning on each of them.",
     ["inputs", "programs", "configurations"],
     "every expression in the vectorisable class x vectorisation options x instruction set (none, SSE2, SSE3, SSE2+FMA, AVX, AVX+FMA, AVX-512) x lane values",
     "Doctests compare a few emitted strings; the test machine compiles generated projects with a single instruction set and never compares vector with scalar results.",
     ["nrpy/helpers/simd.py", "nrpy/helpers/simd_intrinsics.h", "nrpy/helpers/expr_tree.py", "nrpy/c_codegen.py"],
     [("expr_convert_to_simd_intrins", "nrpy/helpers/simd.py"), ("SIMD macros", "nrpy/helpers/simd_intrinsics.h")],
     "property-based differential testing: random expression systems compiled for seven instruction-set configurations against a 40-digit mpmath evaluator; random-operand testing of every header macro",
     EXP + "Vector exp/sin/cos are compiler-provided (SVML); lane-wise stand-ins replace them. Instruction sets the CPU lacks are skipped.")

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_more.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        assert len(p["title"]) <= 80, p["title"]
        for x in p["files"]:
            assert os.path.exists(os.path.join("/repo", x)), x
        f.write(json.dumps(d) + "\n")

checks, na = [], []
for p in P:
    script = f"checks/{p['id'].lower()}.py"
    if os.path.exists(os.path.join(ROOT, script)):
        checks.append(dict(property=p["id"], quick_cmd=f"python3 {script} --tier quick", thorough_cmd=f"python3 {script} --tier thorough",
                           technique=p["technique"], level="exploration", level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 tools/preflight.py", checks=checks, not_applicable=na,
         notes="Checks bootstrap themselves under /opt/venv/bin/python; nothing persists between runs except evidence/.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(checks), "checks,", len(na), "without a check")
