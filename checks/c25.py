#!/usr/bin/env python3
"""C25: registered C functions become exactly the requested program or library; validators tell the truth."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp

C = vp.Check("C25", assumptions=[
    "projects are built with the gcc, g++, clang, make and ar of this sandbox",
    "functions return integers computed from their arguments, a per-function constant and the functions they call; C++ sources use no template or overload",
    "validators: polynomial, trigonometric and exponential identities whose values and coefficients are of moderate size (no cancellation beyond 10 digits)",
])
PY_MOD = 1000003


class Violation(vp.Violation):
    def __init__(self, msg, signature=None, **kw):
        super().__init__(msg + (" | " + ", ".join(f"{k}={v!r}" for k, v in kw.items()) if kw else ""), signature=signature)


def require(cond, msg, **kw):
    if not cond:
        raise Violation(msg, **kw)



# ------------------------------------------------------------------ projects
def proj_cases(tier, rng):
    n = 16 if tier == "quick" else 240
    out = []
    for i in range(n):
        kind = ["exe", "exe", "static", "shared", "exe-prefixlib", "exe"][i % 6]
        nf = rng.randint(2, 7)
        dirs = [rng.choice([".", "", "./", "sub", "sub/", "a/b", "./a//b", "a/b/c", "deep/er", "Sub2"]) for _ in range(nf)]
        fs = []
        for k in range(nf):
            fs.append(dict(name=rng.choice(["f", "Fun", "zeta", "aux", "_u", "g_h", "Boo", "c_func"]) + str(k), dir=dirs[k],
                           const=rng.randint(1, 10 ** 5), calls=sorted({rng.randint(0, k - 1) for _ in range(rng.randint(0, 2))}) if k else [],
                           params=rng.random() < 0.4, simd=rng.random() < 0.2, prefunc=rng.random() < 0.3, postfunc=rng.random() < 0.3,
                           typ=rng.choice(["int", "long", "double", "static_helper"]), coord=rng.choice(["", "", "", "Cartesian", "SinhSpherical"]),
                           deco=rng.choice(["", "", "__attribute__((noinline))", "extern"]), desc=rng.choice(["x", "multi\nline; {text} \"q\"", "  spaced  ", "100% // not a comment"])))
        out.append(dict(kind=kind, fs=fs, opt=rng.choice(["default", "fast", "debug"]), cc=rng.choice(["gcc", "wrapper", "wrapper", "autodetect"]),
                        ext=rng.choice(["c", "c", "c", "cpp"]), exe=rng.choice(["", "", "prog.x", "myexe"]), cflag=rng.random() < 0.5, lib=rng.random() < 0.4, incdir=rng.random() < 0.4,
                        style=rng.choice(["", "", "-style={BasedOnStyle: Google, ColumnLimit: 60}"]),
                        edits=[[rng.randint(0, nf - 1), rng.randint(1, 10 ** 5)] for _ in range(rng.randint(1, 2))], order=rng.sample(range(nf), nf), arg=rng.randint(-50, 50),
                        change=rng.choice(["function", "function", "parameter"])))
    return out


def value(fs, k, x, par):
    f = fs[k]
    v = x * (k + 2) + f["const"]
    for c in f["calls"]:
        v += value(fs, c, x + 1, par)
    if f["params"]:
        v += par
    if f["prefunc"]:
        v += 11 * (k + 1)
    return v % PY_MOD if v >= 0 else -((-v) % PY_MOD)


def actual(f):
    return f["name"] + (f"__rfm__{f['coord']}" if f["coord"] else "")


def run_proj(c):
    import subprocess
    import nr
    nr.reset("BHaH")
    import nrpy.c_function as cfc
    import nrpy.params as par
    from nrpy.infrastructures.BHaH import BHaH_defines_h as bd
    from nrpy.infrastructures.BHaH import CodeParameters as cp
    from nrpy.infrastructures.BHaH import Makefile_helpers as mh
    from nrpy.helpers.generic import copy_files
    fs = [dict(f) for f in c["fs"]]
    d = os.path.join(vp.fresh_dir(), "proj")
    parval = [37]
    pre = "lib_" if c["kind"] == "exe-prefixlib" else ""
    cxx = c["ext"] == "cpp"
    wrap = os.path.join(os.path.dirname(d), "bin")
    os.makedirs(wrap)
    for w in ("vpcc", "vpenvcc"):
        open(os.path.join(wrap, w), "w").write(f'#!/bin/sh\nexec {"g++" if cxx else "gcc"} "$@"\n')
        os.chmod(os.path.join(wrap, w), 0o755)
    os.environ["PATH"] = wrap + ":" + os.environ["PATH"].split("/bin:", 1)[1] if os.environ["PATH"].startswith("/tmp/vp") else wrap + ":" + os.environ["PATH"]
    CC = {"autodetect": "g++" if cxx else "autodetect", "gcc": "g++" if cxx else "gcc", "wrapper": "vpcc"}[c["cc"]]

    def generate():
        nr.reset("BHaH")
        par.register_CodeParameter("int", "m", "knob", parval[0], commondata=True, add_to_parfile=False)
        for k in c["order"]:
            f = fs[k]
            body = f"long long v = (long long)x * {k + 2} + {f['const']};\n"
            for q in f["calls"]:
                body += f"v += {pre}{actual(fs[q])}(commondata, params, x + 1);\n"
            if f["params"]:
                body += "v += knob;\n"
            if f["prefunc"]:
                body += f"v += pre_{k}(); // a comment; with semicolons;\n"
            body += f"return v >= 0 ? v % {PY_MOD} : -((-v) % {PY_MOD});\n"
            typ = "static_helper" if False else ("int" if f["typ"] == "static_helper" else f["typ"])
            if f["deco"] == "extern" and cxx:
                f["deco"] = ""
            cfc.register_CFunction(
                subdirectory=f["dir"], includes=["BHaH_defines.h", "BHaH_function_prototypes.h", "<limits.h>"] + (["only_in_incdir.h"] if c["incdir"] else []),
                prefunc=f"static int pre_{k}(void) {{ return {11 * (k + 1)}; }}" if f["prefunc"] else "", desc=f["desc"], cfunc_type=typ, name=f["name"],
                params="const commondata_struct *commondata, const params_struct *params, int x", include_CodeParameters_h=f["params"], enable_simd=f["simd"] and f["params"], body=body,
                postfunc=f"int post_{k}_marker(void) {{ return {k}; }}" if f["postfunc"] else "", cfunc_decorators=f["deco"], CoordSystem_for_wrapper_func=f["coord"])
            key = actual(f)
            require(key in cfc.CFunction_dict, "a registered function is missing from CFunction_dict", name=key)
            try:
                cfc.register_CFunction(desc="again", name=f["name"], body="return 1;", CoordSystem_for_wrapper_func=f["coord"])
                raise Violation("registering a C function name twice is not rejected")
            except ValueError:
                pass
            require(cfc.CFunction_dict[key].desc == f["desc"], "a rejected second registration replaced the first")
        if c["kind"] == "exe":
            cfc.register_CFunction(includes=["BHaH_defines.h", "BHaH_function_prototypes.h"], desc="main", cfunc_type="int", name="main", params="int argc, char *argv[]", body=main_body())
        os.makedirs(d, exist_ok=True)
        cp.write_CodeParameters_h_files(project_dir=d)
        cp.register_CFunctions_params_commondata_struct_set_to_default()
        if c["kind"] != "exe":
            # a library without grids: only commondata defaults are needed
            cfc.CFunction_dict.pop("params_struct_set_to_default", None)
        bd.output_BHaH_defines_h(project_dir=d, enable_intrinsics=True, enable_rfm_precompute=False)
        copy_files("nrpy.helpers", ["simd_intrinsics.h"], d, "intrinsics")
        flags = (["-DADDL_FLAG=5"] if c["cflag"] else []) + (["-Drestrict=__restrict__"] if cxx else [])
        flags = flags or None
        libs = ["-lz_does_not_exist_guard"] if False else (["-lpthread"] if c["lib"] else None)
        inc = None
        if c["incdir"]:
            inc = [os.path.join(os.path.dirname(d), "inc dir".replace(" ", "_"))]
            os.makedirs(inc[0], exist_ok=True)
            open(os.path.join(inc[0], "only_in_incdir.h"), "w").write("#define ONLY_IN_INCDIR 1\n")
        saved = list(flags) if flags else None
        mh.output_CFunctions_function_prototypes_and_construct_Makefile(
            project_dir=d, project_name="theproject", exec_or_library_name=c["exe"], compiler_opt_option=c["opt"], addl_CFLAGS=flags, addl_libraries=libs, CC=CC,
            create_lib=c["kind"] != "exe", static_lib=c["kind"] in ("static", "exe-prefixlib"), lib_function_prefix=pre, include_dirs=inc, src_code_file_ext=c["ext"],
            **({"clang_format_options": c["style"]} if c["style"] else {}))
        require(flags == saved, "the caller's list of compiler flags was modified", before=saved, after=flags)

    def main_body():
        return "commondata_struct cd; params_struct ps; commondata_struct_set_to_default(&cd); int x = atoi(argv[1]);\n" + "".join(
            f'printf("%ld\\n", (long){actual(f)}(&cd, &ps, x));\n' for f in fs) + "return 0;"

    def make(target="", env=None):
        e = {k: v for k, v in os.environ.items() if k not in ("CC", "CFLAGS", "MAKEFLAGS", "MFLAGS")}
        e.update(env or {})
        return subprocess.run(["make", "-j2"] + ([target] if target else []), cwd=d, env=e, capture_output=True, text=True, timeout=600)

    def check_values(tag):
        out = c["exe"] or "theproject"
        if c["kind"] == "exe":
            exe = os.path.join(d, out)
        else:
            ext = ".a" if c["kind"] in ("static", "exe-prefixlib") else ".so"
            lib = os.path.join(d, out if out.endswith(ext) else out + ext)
            require(os.path.exists(lib), "make did not create the library under its name", lib=os.path.basename(lib), have=sorted(os.listdir(d))[:30])
            drv = os.path.join(os.path.dirname(d), "drv." + c["ext"])
            open(drv, "w").write('#include "BHaH_defines.h"\n#include "BHaH_function_prototypes.h"\nint main(int argc, char **argv) {commondata_struct cd; params_struct ps; '
                                 + f"{pre}commondata_struct_set_to_default(&cd); int x = atoi(argv[1]);\n" + "".join(f'printf("%ld\\n", (long){pre}{actual(f)}(&cd, &ps, x));\n' for f in fs) + "return 0;}\n")
            exe = os.path.join(os.path.dirname(d), "drv")
            r = subprocess.run([("g++" if cxx else "gcc"), "-march=native", "-w", "-fopenmp", "-Drestrict=__restrict__", "-I" + d, drv, lib, "-o", exe, "-lm"], capture_output=True, text=True)
            require(r.returncode == 0, "a program using the library's own prototypes does not link against it", err=r.stderr[-600:])
        r = subprocess.run([exe, str(c["arg"])], capture_output=True, text=True, cwd=d, timeout=60)
        want = [value(fs, k, c["arg"], parval[0]) for k in range(len(fs))]
        got = [int(float(v)) for v in r.stdout.split()]
        require(r.returncode == 0 and got == want, f"the built {c['kind']} ({tag}) does not compute what its functions say", got=got, want=want, rc=r.returncode, err=r.stderr[-200:])

    generate()
    files = []
    for f in cfc.CFunction_dict.values():
        p = os.path.normpath(os.path.join(d, f.subdirectory or ".", f"{f.name}.{c['ext']}"))
        require(os.path.isfile(p), "a registered function has no source file where it was asked for", path=os.path.relpath(p, d))
        files.append(p)
    r = make()
    require(r.returncode == 0, "the generated project does not build with its own Makefile", err=(r.stdout + r.stderr)[-900:])
    if c["cc"] != "autodetect":
        require(any(l.startswith(CC + " ") for l in r.stdout.splitlines()), "the Makefile does not use the requested compiler", cc=CC, out=r.stdout[:200])
    if c["cflag"]:
        require("-DADDL_FLAG=5" in r.stdout, "additional compiler flags are not used")
    if c["lib"] and c["kind"] in ("exe", "shared"):
        require("-lpthread" in r.stdout, "additional libraries are not linked")
    check_values("first build")
    # change something, regenerate, rebuild incrementally
    for k, v in c["edits"]:
        if c["change"] == "function":
            fs[k]["const"] = v
        else:
            parval[0] = v
        generate()
        r = make()
        require(r.returncode == 0, "rebuilding after a regeneration fails", err=(r.stdout + r.stderr)[-900:])
        check_values("after regeneration")
    # environment CC still wins, as the Makefile says
    make("clean")
    left = [os.path.relpath(os.path.join(p, q), d) for p, _, qs in os.walk(d) for q in qs if q.endswith((".o", ".a", ".so")) or q == (c["exe"] or "theproject")]
    require(not left, "make clean leaves build products behind", left=left[:6])
    for p in files:
        require(os.path.isfile(p), "make clean removes sources", path=p)
    r = make(env={"CC": "vpenvcc"})
    require(r.returncode == 0, "the project does not build with CC set in the environment", err=(r.stdout + r.stderr)[-900:])
    require("vpenvcc " in r.stdout, "CC in the environment is ignored")
    check_values("after clean")
    return (c["kind"], c["ext"], any(f["coord"] for f in fs))


C.add_list("project", proj_cases, run_proj, shards=8, budget=150, budget_thorough=1500,
           rule="at least two functions in random directories calling each other, built, edited, rebuilt, cleaned and rebuilt")


# ------------------------------------------------------------------ invalid requests
def bad_cases(tier, rng):
    out = []
    for i in range(20 if tier == "quick" else 200):
        out.append(dict(what=rng.choice(["noname", "nodesc", "nobody", "inc-str", "inc-nonstr", "griddata", "nomain", "static-nolib", "cflags-str", "libs-str", "incs-str", "nocc"]), s=rng.randint(0, 9 ** 6)))
    return out


def run_bad(c):
    import nr
    nr.reset("BHaH")
    import nrpy.c_function as cfc
    from nrpy.infrastructures.BHaH import Makefile_helpers as mh
    kw = dict(name=f"f{c['s']}", desc="d", body="return;")
    mk = {}
    w = c["what"]
    target = "f"
    if w in ("noname", "nodesc", "nobody"):
        kw[w[2:]] = ""
    elif w == "inc-str":
        kw["includes"] = "a.h"
    elif w == "inc-nonstr":
        kw["includes"] = ["a.h", 7]
    elif w == "griddata":
        kw.update(params="griddata_struct *g", CoordSystem_for_wrapper_func="Cartesian")
    else:
        target = "m"
        mk = {"nomain": {}, "static-nolib": dict(static_lib=True), "cflags-str": dict(addl_CFLAGS="-g"), "libs-str": dict(addl_libraries="-lm"), "incs-str": dict(include_dirs="x"), "nocc": dict(CC="no-such-compiler")}[w]
        cfc.register_CFunction(**kw)
        if w != "nomain":
            cfc.register_CFunction(name="main", desc="d", body="return 0;", cfunc_type="int")
    before = sorted(cfc.CFunction_dict)
    try:
        if target == "f":
            cfc.register_CFunction(**kw)
        else:
            mh.output_CFunctions_function_prototypes_and_construct_Makefile(project_dir=os.path.join(vp.fresh_dir(), "p"), project_name="p", **mk)
    except (ValueError, TypeError, FileNotFoundError):
        require(sorted(cfc.CFunction_dict) == before, "a rejected registration has an effect")
        return w
    raise Violation(f"an invalid request is accepted ({w})")


C.add_list("invalid", bad_cases, run_bad, shards=1, budget=20, budget_thorough=60, rule="every case")


# ------------------------------------------------------------------ validators
IDS = ["sin(2*{a})-2*sin({a})*cos({a})", "cos({a}+{b})-cos({a})*cos({b})+sin({a})*sin({b})", "({a}+{b})**3-{a}**3-3*{a}**2*{b}-3*{a}*{b}**2-{b}**3",
       "exp({a}+{b})-exp({a})*exp({b})", "({a}**2-{b}**2)-({a}-{b})*({a}+{b})", "cosh({a})**2-sinh({a})**2-1", "log(({a}+1)**2)-2*log({a}+1)", "sqrt(({a}+2)**2)-({a}+2)",
       "1/({a}+1)-1/({a}+2)-1/(({a}+1)*({a}+2))", "({a}+{b}+{c})**2-{a}**2-{b}**2-{c}**2-2*({a}*{b}+{b}*{c}+{a}*{c})", "atan(tan({a}/2))-{a}/2", "{a}*PI-{a}*PI"]


def val_strategy():
    from hypothesis import strategies as st
    return st.builds(lambda **k: k, ids=st.lists(st.tuples(st.integers(0, len(IDS) - 1), st.permutations(["x", "yy", "M_x", "h_dD01", "time"]), st.integers(-9, 9).filter(bool)), min_size=1, max_size=3),
                     noise=st.sampled_from(["", "", "1e-10*x", "1/1000", "yy**2", "-x*yy/100000000", "10**(-15)", "sin(x)*10**(-12)"]), wrap=st.sampled_from(["expr", "list", "matrix"]),
                     seed=st.integers(0, 10 ** 6), fixed=st.booleans(), pick=st.integers(0, 8))


def run_val(c):
    import contextlib, io
    import random
    import sympy as sp
    import nrpy.validate_expressions.validate_expressions as ve
    random.seed(c["seed"])
    e = sp.Integer(0)
    for i, names, k in c["ids"]:
        a, b, cc = names[:3]
        e += k * sp.sympify(IDS[i].format(a=a, b=b, c=cc), evaluate=True)
    noise = sp.sympify(c["noise"] or "0")
    z = e + noise
    with contextlib.redirect_stdout(io.StringIO()):
        got = ve.check_zero(z, fixed_mpfs_for_free_symbols=c["fixed"])
    if c["fixed"] and noise == 0 and not got:
        # is it the recorded defect? then the answer is right once the values SymPy cached at 30 digits are forgotten before the re-evaluation
        forget = ve.inject_mpfs_into_cse_expression
        from sympy.core.cache import clear_cache

        def fresh(*a, **k):
            clear_cache()
            return forget(*a, **k)
        ve.inject_mpfs_into_cse_expression = fresh
        try:
            again = ve.check_zero(z, fixed_mpfs_for_free_symbols=True)
        finally:
            ve.inject_mpfs_into_cse_expression = forget
        if again:
            raise Violation("check_zero with fixed values calls a vanishing expression nonzero", signature="check_zero-reuses-low-precision-cache", expr=str(z))
    require(got == (noise == 0), "check_zero gives the wrong answer", expr=str(z), got=got)
    base = sp.sympify("x**2+3*yy+h_dD01*time")
    lhs, rhs = base + e, base + noise

    def shape(v):
        if c["wrap"] == "expr":
            return v
        if c["wrap"] == "list":
            l = [base, base * 2, base + 1]
            l[c["pick"] % 3] = v
            return l
        m = [[base * (i + 2 * j + 1) for j in range(3)] for i in range(3)]
        m[c["pick"] // 3][c["pick"] % 3] = v
        return m
    d1, d2 = {"A": base, "B": shape(lhs), "C": sp.Integer(0)}, {"A": base, "B": shape(rhs), "C": sp.Integer(0)}
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            ve.assert_equal(d1, d2)
            same = True
        except AssertionError:
            same = False
    require(same == (noise == 0), "assert_equal gives the wrong answer", lhs=str(d1["B"])[:300], rhs=str(d2["B"])[:300], same=same)
    # a value that is not a number equals nothing
    for p, q in (({"A": base, "B": sp.nan}, {"A": base, "B": base}), ({"A": base, "B": base}, {"A": base, "B": sp.nan})):
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                ve.assert_equal(p, q)
            except AssertionError:
                continue
        raise Violation("assert_equal accepts NaN for a finite value", keys=[str(p), str(q)])
    return c["wrap"] if noise != 0 or len(c["ids"]) > 1 else None


C.add("validators", val_strategy, run_val, quick=200, thorough=4000, shards=8, budget=60, budget_thorough=600, rule="a difference was added, or at least two identities are summed")


def ext_strategy():
    from hypothesis import strategies as st
    return st.builds(lambda **k: k, n=st.integers(0, 3), extra=st.integers(1, 3), swap=st.booleans())


def run_ext(c):
    import contextlib, io
    import sympy as sp
    import nrpy.validate_expressions.validate_expressions as ve
    x = sp.Symbol("x")
    p = {f"A{i}": x * (i + 1) for i in range(c["n"])}
    q = dict(p, **{f"B{i}": x + i for i in range(c["extra"])})
    if c["swap"]:
        p, q = q, p
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            ve.assert_equal(p, q)
        except AssertionError:
            return "rejected"
    raise Violation("assert_equal accepts dictionaries with different numbers of expressions", signature="assert_equal-ignores-extra-expressions", keys=[sorted(p), sorted(q)])


C.add("extra", ext_strategy, run_ext, quick=20, thorough=100, shards=1, budget=30, budget_thorough=60, rule="one dictionary has more entries than the other")


TR = r"""
import sys, os, json, io, contextlib
sys.path.insert(0, os.getcwd())
import sympy as sp
import nrpy.validate_expressions.validate_expressions as ve
from nrpy.helpers.generic import validate_strings
spec = json.loads(sys.argv[1])
d = {k: (sp.sympify(v) if isinstance(v, str) else [sp.sympify(q) for q in v]) for k, v in spec["d"].items()}
with contextlib.redirect_stdout(io.StringIO()):
    r = ve.process_dictionary_of_expressions(d, fixed_mpfs_for_free_symbols=True)
try:
    ve.compare_or_generate_trusted_results(os.path.join(os.getcwd(), "pkg", "mod.py"), os.getcwd(), spec["base"], r)
    print("RESULT ok")
except (ValueError, KeyError, AssertionError) as e:
    print("RESULT reject")
"""


def tr_cases(tier, rng):
    out = []
    exprs = ["x**2+y", "sin(x)*h_dD0", "x/(1+y)", "exp(-x)*z", "sqrt(x+y)", "0", "x-x+7", "sqrt(-1-x)", "PI*x", "log(x)*(x+y)**3", "1"]
    for i in range(10 if tier == "quick" else 80):
        d = {k: rng.choice(exprs) if rng.random() < 0.6 else [rng.choice(exprs) for _ in range(rng.randint(1, 3))] for k in rng.sample(["aDD", "b", "cU", "d_rhs", "e"], rng.randint(1, 4))}
        edit = rng.choice(["none", "reorder", "value", "tiny", "drop", "add", "rename", "nan"])
        out.append(dict(d=d, edit=edit, s=rng.randint(0, 10 ** 6)))
    return out


def run_tr(c):
    import json, random, subprocess
    import sympy as sp
    rng = random.Random(c["s"])
    w = vp.fresh_dir()
    os.makedirs(os.path.join(w, "pkg"))
    open(os.path.join(w, "pkg", "__init__.py"), "w").close()
    open(os.path.join(w, "pkg", "mod.py"), "w").close()

    def go(d, seed):
        env = dict(os.environ, PYTHONPATH=vp.REPO, PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE="1", XDG_CACHE_HOME=w)
        r = subprocess.run(["/opt/venv/bin/python", "-c", TR, json.dumps(dict(d=d, base="trusted_one"))], cwd=w, env=env, capture_output=True, text=True, timeout=120)
        require("RESULT" in r.stdout, "the trusted-value comparison crashed", err=r.stderr[-500:])
        return r.stdout.split("RESULT ")[1].split()[0]
    require(go(c["d"], 1) == "ok", "generating trusted values failed")
    require(os.path.exists(os.path.join(w, "pkg", "tests", "trusted_one.py")), "no trusted file was written")
    d = dict(c["d"])
    k = rng.choice(sorted(d))
    want = "reject"

    def mod(fn):
        v = d[k]
        if isinstance(v, str):
            d[k] = fn(v)
        else:
            j = rng.randrange(len(v))
            d[k] = v[:j] + [fn(v[j])] + v[j + 1:]
    if c["edit"] == "none":
        want = "ok"
    elif c["edit"] == "reorder":
        d = {q: d[q] for q in reversed(list(d))}
        mod(lambda v: f"({v})*(sin(x)**2+cos(x)**2)")
        want = "ok"
    elif c["edit"] == "value":
        mod(lambda v: f"({v})*2+1/7")
    elif c["edit"] == "tiny":
        mod(lambda v: f"({v})+1/10**15")
    elif c["edit"] == "nan":
        mod(lambda v: "nan")
    elif c["edit"] == "drop":
        d.pop(k)
        if not d:
            d = {"q": []}
    elif c["edit"] == "add":
        d["zz_new"] = "x"
    else:
        d["renamed"] = d.pop(k)
    got = go(d, 2)
    require(got == want, f"comparison with trusted values after edit '{c['edit']}' says {got}", before=c["d"], after=d)
    return c["edit"] if c["edit"] != "none" else None


C.add_list("trusted", tr_cases, run_tr, shards=8, budget=60, budget_thorough=600, rule="the expressions were edited between generating and comparing trusted values")


# ------------------------------------------------------------------ small helpers
def hlp_strategy():
    from hypothesis import strategies as st
    atom = st.one_of(st.integers(-3, 3), st.text("abx", max_size=2), st.booleans())
    return st.builds(lambda **k: k, seq=st.lists(atom, max_size=8), text=st.text("ab *;\n/%\"", max_size=30), iters=st.lists(st.lists(st.integers(0, 5), min_size=0, max_size=3), min_size=2, max_size=4),
                     rep=st.integers(2, 3), s2=st.text("ab\n", max_size=10), excl=st.lists(st.sampled_from("xyzw"), max_size=2), lit=st.lists(st.text("abc", min_size=1, max_size=3), min_size=1, max_size=4), val=st.text("abc", min_size=1, max_size=3))


def run_hlp(c):
    import itertools
    import sympy as sp
    from nrpy.helpers import functional as fn
    from nrpy.helpers import generic as g
    from nrpy.helpers.expression_utils import get_unique_expression_symbols_as_strings as us
    seq = c["seq"]
    first = []
    for v in seq:
        if v not in first:
            first.append(v)
    require(g.superfast_uniq(list(seq)) == first, "superfast_uniq does not keep first occurrences in order", seq=seq)
    require(fn.uniquify(list(seq)) == first, "uniquify does not keep first occurrences in order", seq=seq)
    p = g.prefix_with_star(c["text"])
    require([l.replace("   * ", "", 1).strip() for l in p.split("\n")] == [l.strip() for l in c["text"].split("\n")] and all(l.startswith("   * ") for l in p.split("\n")), "prefix_with_star lost text", text=c["text"])
    require(list(fn.product(*c["iters"])) == list(itertools.product(*c["iters"])), "product is not the Cartesian product", iters=c["iters"])
    require(list(fn.product(c["iters"][0], repeat=c["rep"])) == list(itertools.product(c["iters"][0], repeat=c["rep"])), "product(repeat) is not the Cartesian power")
    require(list(fn.flatten(c["iters"])) == [v for l in c["iters"] for v in l], "flatten")
    require(fn.reduce(lambda a, b: a * 7 + b, [1] + c["iters"][0]) == fn.reduce(lambda a, b: a * 7 + b, c["iters"][0], 1), "reduce: the initial value is not the first element")
    require(fn.pipe(3, *[lambda v, k=k: v * 2 + k for k in c["iters"][0]]) == fn.reduce(lambda v, k: v * 2 + k, c["iters"][0], 3), "pipe")
    require(fn.repeat(lambda v: v * 2, 1, c["rep"]) == 2 ** c["rep"], "repeat")
    diff = g.diff_strings(c["text"], c["s2"])
    require((diff == "") == (c["text"].splitlines() == c["s2"].splitlines()), "diff_strings is empty for different strings, or not for equal ones", a=c["text"], b=c["s2"])
    x, y, z, w = sp.symbols("x y z w")
    e = x * y + sp.sin(z) if len(seq) % 2 else x + y - x + w ** 2
    require(us(e, list(c["excl"])) == sorted({s.name for s in e.free_symbols} - set(c["excl"])), "unique expression symbols", expr=str(e))
    # Literal arguments
    from typing import Literal
    from nrpy.helpers.type_annotation_utilities import validate_literal_arguments, is_type_literal
    ns = {}
    lits = sorted(set(c["lit"]))
    exec("def f(n, a: Literal[%s], b: int = 3) -> None:\n    validate_literal_arguments()\n" % ", ".join(map(repr, lits)), dict(Literal=Literal, validate_literal_arguments=validate_literal_arguments), ns)
    f = ns["f"]
    try:
        f(1, c["val"], "anything")
        ok = True
    except ValueError:
        ok = False
    require(ok == (c["val"] in lits), "validate_literal_arguments accepts or rejects wrongly", val=c["val"], allowed=lits)
    return "n" if len(seq) > 2 else None


C.add("helpers", hlp_strategy, run_hlp, quick=300, thorough=6000, shards=2, budget=30, budget_thorough=200, rule="a sequence of more than two elements")


# ------------------------------------------------------------------ BHaH_defines.h
def def_cases(tier, rng):
    out = []
    for i in range(8 if tier == "quick" else 80):
        mods = rng.sample(["general", "after_general", "finite_difference", "grid", "user_b", "user_a", "zz", "commondata_struct"], rng.randint(1, 5))
        regs = [[m, rng.randint(1, 999)] for m in mods for _ in range(rng.randint(1, 2))]
        rng.shuffle(regs)
        out.append(dict(regs=regs, sup=[[f"SUP{j}", rng.randint(1, 99)] for j in range(rng.randint(0, 2))], grid=[[rng.choice(["mod_a", "mod_b"]), rng.choice(["int q%d", "REAL *restrict r%d", "char s%d[20]"]) % j] for j in range(rng.randint(0, 3))],
                        com=[["mod_c", rng.choice(["int cq%d", "REAL cr%d[4]"]) % j] for j in range(rng.randint(0, 2))], fd=rng.choice([2, 4, 6, 8]), up=rng.random() < 0.5,
                        fp=rng.choice(["double", "float"]), dbl=rng.choice(["double", "long double"]), n=[rng.randint(2, 9) for _ in range(3)], a=rng.randint(-9, 9), b=rng.randint(-9, 9)))
    return out


def run_def(c):
    import subprocess
    import nr
    nr.reset("BHaH")
    import nrpy.params as par
    from nrpy.infrastructures.BHaH import BHaH_defines_h as bd
    from nrpy.infrastructures.BHaH import griddata_commondata as gc
    par.set_parval_from_str("fp_type", c["fp"])
    par.set_parval_from_str("fd_order", c["fd"])
    d = vp.fresh_dir()
    for j, (m, v) in enumerate(c["regs"]):
        bd.register_BHaH_defines(m, f"#define USERMAC{j} {v}\n")
    for m, decl in c["grid"]:
        gc.register_griddata_commondata(m, decl, "a description; with // marks")
    for m, decl in c["com"]:
        gc.register_griddata_commondata(m, decl, "d", is_commondata=True)
    for m, decl in c["grid"][:1]:
        try:
            gc.register_griddata_commondata(m, decl, "again")
            raise Violation("the same struct member can be registered twice")
        except ValueError:
            pass
    par.register_CodeParameter("#define", "mm", "DEFPAR", c["n"][0] * 3)
    bd.output_BHaH_defines_h(project_dir=d, enable_intrinsics=False, enable_rfm_precompute=False, fin_NGHOSTS_add_one_for_upwinding_or_KO=c["up"], DOUBLE_means=c["dbl"],
                             supplemental_defines_dict={f"supp {k}": f"#define {k} {v}\n" for k, v in c["sup"]} or None)
    n0, n1, n2 = c["n"]
    src = '#include "BHaH_defines.h"\n#include "BHaH_defines.h"\nstatic int calls = 0; static int once(int v) { calls++; return v; }\nint main(void) {\n'
    checks = []

    def t(expr, what):
        checks.append(what)
        return f'if (!({expr})) printf("%d\\n", {len(checks) - 1});\n'
    for j, (m, v) in enumerate(c["regs"]):
        src += t(f"USERMAC{j} == {v}", f"define registered by module {m}")
    for k, v in c["sup"]:
        src += t(f"{k} == {v}", "supplemental define")
    src += t(f"NGHOSTS == {c['fd'] // 2 + (1 if c['up'] else 0)}", "NGHOSTS")
    src += t(f"DEFPAR == {n0 * 3}", "#define code parameter")
    src += t(f"sizeof(REAL) == sizeof({c['fp']}) && sizeof(DOUBLE) == sizeof({c['dbl']})", "REAL and DOUBLE types")
    a, b = c["a"], c["b"]
    src += t(f"MIN(once({a}), {b}) == {min(a, b)} && calls == 1", "MIN") + "calls = 0;\n"
    src += t(f"MAX(once({a}), once({b})) == {max(a, b)} && calls == 2", "MAX") + "calls = 0;\n"
    src += t(f"SQR(once({a}) + {b}) == {(a + b) ** 2} && calls == 1", "SQR")
    src += t(f"1.5 * SQR({a} - {b}) == {1.5 * (a - b) ** 2}", "SQR in a product")
    src += f"const int Nxx_plus_2NGHOSTS0={n0}, Nxx_plus_2NGHOSTS1={n1}, Nxx_plus_2NGHOSTS2={n2}; int e = 0, bad = 0; (void)Nxx_plus_2NGHOSTS2;\n"
    src += f"for (int gf = 0; gf < 3; gf++) for (int k = 0; k < {n2}; k++) for (int j = 0; j < {n1}; j++) for (int i = 0; i < {n0}; i++) {{ if (IDX4(gf, i, j, k) != e || IDX4pt(gf, IDX3(i, j, k)) != e || IDX4(gf + 1, i, j, k) != e + {n0 * n1 * n2}) bad++; e++; }}\n"
    src += t("bad == 0", "index macros")
    src += f"int cnt = 0, ord = 0, last = -1; LOOP_REGION(1, {n0}, 0, {n1}, 1, {n2}) {{ cnt++; if (IDX3(i0, i1, i2) <= last) ord++; last = IDX3(i0, i1, i2); }}\n"
    src += t(f"cnt == {(n0 - 1) * n1 * (n2 - 1)} && ord == 0", "LOOP_REGION")
    src += f'cnt = 0; LOOP_NOOMP(i, 0, {n0}, j, 1, {n1}, k, 0, {n2}) {{ cnt += 1 + 0 * (i + j + k); }}\n'
    src += t(f"cnt == {n0 * (n1 - 1) * n2}", "LOOP_NOOMP")
    src += f'cnt = 0; LOOP_OMP("omp parallel for reduction(+:cnt)", i, 0, {n0}, j, 1, {n1}, k, 0, {n2}) {{ cnt += 1; }}\n'
    src += t(f"cnt == {n0 * (n1 - 1) * n2}", "LOOP_OMP")
    src += f"bad = 0; for (int k = 0; k < {n2}; k++) for (int j = 0; j < {n1}; j++) for (int i = 0; i < {n0}; i++) {{ int q[3] = {{i, j, k}}; int in = i >= 1 && i < {n0} - 1 && j >= 1 && j < {n1} - 1 && k >= 1 && k < {n2} - 1; if (!!(IS_IN_GRID_INTERIOR(q, {n0}, {n1}, {n2}, 1)) != in) bad++; }}\n"
    src += t("bad == 0", "IS_IN_GRID_INTERIOR")
    src += "griddata_struct gd; commondata_struct cd; memset(&gd, 0, sizeof gd); memset(&cd, 0, sizeof cd); (void)gd.params; (void)gd.xx[2];\n"
    for m, decl in {tuple(x) for x in c["grid"]}:
        nm = decl.replace("*restrict ", "").split()[-1].split("[")[0]
        src += f"(void)gd.{nm};\n"
    for m, decl in c["com"]:
        nm = decl.split()[-1].split("[")[0]
        src += f"(void)cd.{nm};\n"
    src += "return 0;}\n"
    open(os.path.join(d, "m.c"), "w").write(src)
    r = subprocess.run(["gcc", "-std=gnu99", "-fopenmp", "-w", "-I.", "m.c", "-o", "m", "-lm"], cwd=d, capture_output=True, text=True)
    require(r.returncode == 0, "BHaH_defines.h does not compile", err=r.stderr[-700:])
    r = subprocess.run(["./m"], cwd=d, capture_output=True, text=True)
    require(not r.stdout.strip(), "BHaH_defines.h: " + ", ".join(checks[int(v)] for v in r.stdout.split()), case=c)
    return len(c["regs"]) > 1 and c["fp"]


C.add_list("defines", def_cases, run_def, shards=8, budget=40, budget_thorough=300, rule="at least two contributions to BHaH_defines.h")

if __name__ == "__main__":
    sys.exit(C.main())
