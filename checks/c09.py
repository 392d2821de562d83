#!/usr/bin/env python3
"""C09: parameters keep the value last given to them and reach the generated C code with it."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Violation, require

C = vp.Check("C09", assumptions=[
    "re-registering an existing name through the list form register_CodeParameters() is not specified (the single form keeps the first) and is not generated",
    "char array defaults are printable text without quotes or backslashes and fit the array",
])

# ---------------------------------------------------------------- registry histories
TYPES = {"int": int, "float": float, "str": str, "bool": bool}


def hist_strategy():
    from hypothesis import strategies as st
    nm = st.sampled_from(["a", "b", "Ab", "aB", "x1"])
    mod = st.sampled_from(["m", "a", "pkg.mod", "m2"])
    val = st.integers(-3, 99) | st.sampled_from(["v", "", "unset", True, 1.5])
    ctype = st.sampled_from(["REAL", "int", "bool", "char[10]", "REAL[3]", "int[2]", "REAL [4]", "#define", "double", "void *"])
    op = st.one_of(
        st.tuples(st.just("reg"), st.sampled_from(list(TYPES) + ["list", "dict"]), mod, nm, val),
        st.tuples(st.just("get"), nm, mod | st.none()),
        st.tuples(st.just("set"), nm, val),
        st.tuples(st.just("cp"), ctype, mod, nm, val, st.sampled_from(["Real", "RealPositive", "Bogus"]), st.booleans(), st.booleans(), st.booleans(), st.sampled_from([True, True, False])),
        st.tuples(st.just("cps"), ctype, mod, st.lists(nm, min_size=0, max_size=4, unique=True), st.lists(val, min_size=0, max_size=4) | val,
                  st.sampled_from(["Real", "RealPositive"]), st.booleans(), st.booleans(), st.booleans(), st.sampled_from(["", "one", ["d"], ["d", "e"], ["d", "e", "f"]])),
        st.tuples(st.just("adj"), nm, val))
    return st.lists(op, min_size=6, max_size=30).map(lambda o: dict(ops=[list(x) for x in o]))


FIELDS = ["cparam_type", "module", "name", "defaultvalue", "assumption", "commondata", "add_to_parfile", "add_to_set_CodeParameters_h", "description"]


def run_hist(c):
    import nr, sympy as sp
    nr.reset()
    import nrpy.params as par
    par.glb_params_dict.clear()
    par.glb_code_params_dict.clear()
    P, CP = {}, {}
    hits = 0

    def attempt(f):
        try:
            return True, f()
        except (ValueError, TypeError) as e:
            return False, e

    def cp_ok(t, dv, ass, com, inpar, inset):
        if t.startswith(("REAL", "int")) and "[" in t and not (com and not inset):
            return None
        if t == "#define":
            inpar = inset = False
        if inpar and dv == "unset" and isinstance(dv, str):
            return None
        if ass not in ("Real", "RealPositive"):
            return None
        return inpar, inset

    def entry(t, mod, n, dv, ass, com, fl, d=""):
        return dict(cparam_type=t, module=mod, name=n, defaultvalue=dv, assumption=ass, commondata=com, add_to_parfile=fl[0],
                    add_to_set_CodeParameters_h=fl[1], description=d)

    def sym_ok(s, n, ass):
        require(isinstance(s, sp.Symbol) and str(s) == n and s.is_real is True and (s.is_positive is True) == (ass == "RealPositive"),
                f"CodeParameter {n} ({ass}) returned the symbol {s!r} with assumptions {s.assumptions0 if isinstance(s, sp.Symbol) else None}")

    for op in c["ops"]:
        k = op[0]
        if k == "reg":
            _, t, mod, n, v = op
            pt = TYPES.get(t, {"list": list, "dict": dict}.get(t))
            ok, r = attempt(lambda: par.register_param(pt, mod, n, v))
            require(ok == (t in TYPES), f"register_param(py_type={t}) {'accepted' if ok else 'rejected: ' + str(r)}")
            if ok and n not in P:
                P[n] = v
        elif k == "get":
            _, n, mod = op
            ok, r = attempt(lambda: par.parval_from_str(n if mod is None else f"{mod}::{n}"))
            require(ok == (n in P), f"parval_from_str({n!r}): {'returned ' + repr(r) if ok else 'not found'}, but the parameter is {'not ' if n not in P else ''}registered")
            if ok:
                require(r == P[n] and type(r) is type(P[n]), f"parval_from_str({n!r}) = {r!r}, last value given was {P[n]!r}")
                hits += 1
        elif k == "set":
            _, n, v = op
            ok, r = attempt(lambda: par.set_parval_from_str(n, v))
            require(ok == (n in P), f"set_parval_from_str({n!r}) {'succeeded' if ok else 'failed'} although the parameter is {'not ' if n not in P else ''}registered")
            if ok:
                P[n] = v
                hits += 1
        elif k == "cp":
            _, t, mod, n, v, ass, com, inpar, inset, add = op
            fl = cp_ok(t, v, ass, com, inpar, inset)
            ok, r = attempt(lambda: par.register_CodeParameter(t, mod, n, v, assumption=ass, commondata=com, add_to_parfile=inpar,
                                                               add_to_set_CodeParameters_h=inset, add_to_glb_code_params_dict=add))
            require(ok == (fl is not None), f"register_CodeParameter{tuple(op[1:])} {'accepted' if ok else 'rejected: ' + str(r)}")
            if ok:
                sym_ok(r, n, ass)
                if add and n not in CP:
                    CP[n] = entry(t, mod, n, v, ass, com, fl)
        elif k == "cps":
            _, t, mod, names, vals, ass, com, inpar, inset, desc = op
            if any(n in CP for n in names):
                continue
            good = len(names) >= 1 and (not isinstance(vals, list) or len(vals) == len(names)) and (desc == "" or (isinstance(desc, list) and len(desc) == len(names)))
            vl = vals if isinstance(vals, list) else [vals] * len(names)
            fls = [cp_ok(t, v, ass, com, inpar, inset) for v in vl]
            ok, r = attempt(lambda: par.register_CodeParameters(t, mod, list(names), list(vals) if isinstance(vals, list) else vals, assumption=ass, commondata=com,
                                                                add_to_parfile=inpar, add_to_set_CodeParameters_h=inset, descriptions=desc))
            want = good and all(f is not None for f in fls)
            require(ok == want, f"register_CodeParameters{tuple(op[1:])} {'accepted' if ok else 'rejected: ' + str(r)}")
            if ok:
                require(len(r) == len(names), f"register_CodeParameters returned {len(r)} symbols for {len(names)} names")
                for i, n in enumerate(names):
                    sym_ok(r[i], n, ass)
                    CP[n] = entry(t, mod, n, vl[i], ass, com, fls[i], desc[i] if desc else "")
            else:  # which names precede the rejected one is not specified
                for n in names:
                    par.glb_code_params_dict.pop(n, None)
        else:
            _, n, v = op
            ok, r = attempt(lambda: par.adjust_CodeParam_default(n, v))
            require(ok == (n in CP), f"adjust_CodeParam_default({n!r}) {'succeeded' if ok else 'failed'} although the parameter is {'not ' if n not in CP else ''}registered")
            if ok:
                CP[n]["defaultvalue"] = v
                hits += 1
        require(set(par.glb_params_dict) == set(P), f"after {op}: registered parameters {sorted(par.glb_params_dict)} instead of {sorted(P)}")
        require(set(par.glb_code_params_dict) == set(CP), f"after {op}: registered CodeParameters {sorted(par.glb_code_params_dict)} instead of {sorted(CP)}")
        for n, e in CP.items():
            o = par.glb_code_params_dict[n]
            got = {f: getattr(o, f) for f in FIELDS}
            require(got == e and type(got["defaultvalue"]) is type(e["defaultvalue"]), f"after {op}: CodeParameter {n} is {got} instead of {e}")
            sym_ok(o.symbol, n, e["assumption"])
        for n, v in P.items():
            o = par.glb_params_dict[n]
            require(o.value == v and type(o.value) is type(v), f"after {op}: parameter {n} = {o.value!r} instead of {v!r}")
    return "history" if hits >= 2 else None


C.add("histories", hist_strategy, run_hist, quick=900, thorough=20000, shards=3, budget=60,
      rule="sequence of registrations, look-ups, updates and default adjustments with at least two successful updates or look-ups")


# ---------------------------------------------------------------- values in the generated C code
def cstrategy():
    from hypothesis import strategies as st
    import cparams as cp

    @st.composite
    def strat(draw):
        ps = draw(cp.set_strategy(6, 18, real_strings=True))
        adj = {}
        for p in ps:
            if not p["unset"] and p["default"] not in cp.STRINGS and draw(st.integers(0, 3)) == 0:
                adj[p["name"]] = cp.value_for(draw, st, p["type"])
                if adj[p["name"]] == "unset":
                    adj[p["name"]] = "uns"
        return dict(ps=ps, adj=adj, fp=draw(st.sampled_from(["double", "double", "float"])), ngrids=draw(st.integers(1, 3)),
                    define=draw(st.integers(-5, 99)), simd=draw(st.booleans()), dup=draw(st.booleans()))
    return strat()


def run_c(c):
    import bhah, cparams as cp
    fp = c["fp"]
    simd = c["simd"] and fp == "double"
    bhah.start(fp=fp, coord="Spherical")
    import nrpy.c_function as cfc
    import nrpy.params as par
    ps = [p for p in c["ps"] if p["name"] not in par.glb_code_params_dict]
    cp.register(ps)
    par.register_CodeParameter("#define", "m", "MYDEF_Q", c["define"])
    if c["dup"]:
        for p in ps[:2]:  # a second registration of the same name changes nothing
            par.register_CodeParameter(p["type"], "other", p["name"], 3 if not p["type"].startswith("char") else "other", commondata=p["com"],
                                       add_to_set_CodeParameters_h=p["inset"])
    for n, v in [(p["name"], c["adj"][p["name"]]) for p in ps if p["name"] in c["adj"]]:
        if n in par.glb_code_params_dict:
            par.adjust_CodeParam_default(n, v)
    com = [p for p in ps if p["com"]]
    gr = [p for p in ps if not p["com"]]
    ins = [p for p in ps if p["inset"]]
    inc = ["BHaH_defines.h", "BHaH_function_prototypes.h"]
    cfc.register_CFunction(includes=inc, desc="d", name="show_ptr", params="const commondata_struct *restrict commondata, const params_struct *restrict params",
                           include_CodeParameters_h=True, body="(void)0;\n" + cp.printers(ins, lambda p: p["name"]))
    files = {}
    if simd:
        noarr = [p for p in ins if "[" not in p["type"]]
        body = "(void)simd_width;\n" + "\n".join(
            f'{{ double v_[simd_width]; WriteSIMD(v_, {p["name"]}); printf("{p["name"]} %.17g\\n", v_[simd_width - 1]); }}' if p["type"] == "REAL"
            else f'printf("{p["name"]} %d\\n", (int){p["name"]});' for p in noarr)
        cfc.register_CFunction(includes=inc + ["intrinsics/simd_intrinsics.h"], desc="d", name="show_simd", params="const commondata_struct *restrict commondata, const params_struct *restrict params",
                               include_CodeParameters_h=True, body=body)
    main = f'''#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
static void nopointer(const commondata_struct commondata, const params_struct params) {{
#include "set_CodeParameters-nopointer.h"
(void)commondata; (void)params;
{cp.printers(ins, lambda p: p["name"])}
}}
int main(void) {{
  static commondata_struct commondata; static griddata_struct g[3];
  memset(&commondata, 1, sizeof commondata); memset(g, 1, sizeof g);
  commondata_struct_set_to_default(&commondata);
  printf("NUMGRIDS_ %d\\n", commondata.NUMGRIDS);
  commondata.NUMGRIDS = {c["ngrids"]};
  params_struct_set_to_default(&commondata, g);
  printf("DEF %d\\n", MYDEF_Q);
  printf("C\\n"); {cp.printers(com, lambda p: "commondata." + p["name"])}
  for (int q = 0; q < 3; q++) {{ printf("G %d\\n", q); {cp.printers(gr, lambda p: "g[q].params." + p["name"])} }}
  printf("S1\\n"); show_ptr(&commondata, &g[{c["ngrids"] - 1}].params);
  printf("S2\\n"); nopointer(commondata, g[{c["ngrids"] - 1}].params);
  {'printf("S3"); printf("\\n"); show_simd(&commondata, &g[' + str(c["ngrids"] - 1) + '].params);' if simd else ""}
  printf("END\\n"); return 0;
}}
'''
    try:
        exe, _ = bhah.build(main, flags=["-O0", "-std=gnu99", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-Wno-format-truncation"] + (["-mavx2", "-mfma"] if simd else []),
                            simd=simd, extra_defines={"mine": "#define DBL_EPS_T 0.125\n"})
    except Violation as e:
        raise Violation(f"code for the CodeParameters {[(p['type'], p['name'], p['default'], c['adj'].get(p['name'])) for p in ps]} does not compile: {str(e)[-600:]}", "nocompile")
    out = vp.run_exe(exe)
    out.stdout, out.stderr = out.stdout.decode("latin1"), out.stderr.decode("latin1")
    require(out.returncode == 0 and out.stdout.rstrip().endswith("END"), f"run failed (rc {out.returncode}): {out.stderr[-1500:]}")
    L = iter(out.stdout.split("\n"))
    poison = {"REAL": cp.struct.unpack("d" if fp == "double" else "f", b"\x01" * (8 if fp == "double" else 4))[0], "int": 0x01010101}
    want = {}
    for p in ps:
        v = c["adj"].get(p["name"], p["default"])
        if p["unset"] and p["name"] not in c["adj"]:
            b = p["type"].split("[")[0]
            if b == "bool":
                want[p["name"]] = True
            elif b == "char":
                want[p["name"]] = "\x01" * int(p["type"].split("[")[1][:-1])
            else:
                want[p["name"]] = [poison[b]] * int(p["type"].split("[")[1][:-1]) if "[" in p["type"] else poison[b]
        else:
            want[p["name"]] = cp.expected(p, v, fp)

    def section(plist, what, poisoned=False, clip=False):
        for p in plist:
            ln = next(L)
            require(ln.split(" ")[0] == p["name"], f"harness: expected {p['name']}, got {ln}")
            g = cp.parse(ln, p, fp)
            w = want[p["name"]]
            b = p["type"].split("[")[0]
            if poisoned:
                w = True if b == "bool" else "\x01" * int(p["type"].split("[")[1][:-1]) if b == "char" else poison[b]
            if clip and b == "char" and isinstance(w, str):
                w = w[:int(p["type"].split("[")[1][:-1]) - 1]
            if w is not None and w != w:
                continue
            require(w is None or g == w, f"{what}: {p['type']} {p['name']} = {g!r} instead of {w!r} (default {p['default']!r}, adjusted {c['adj'].get(p['name'])!r})")

    require(next(L) == "NUMGRIDS_ 1", "NUMGRIDS default is not 1")
    require(next(L) == f"DEF {c['define']}", f"#define parameter is not {c['define']}")
    next(L)
    section(com, "commondata_struct_set_to_default")
    for q in range(3):
        next(L)
        section(gr, f"params_struct_set_to_default, grid {q} of {c['ngrids']}", poisoned=q >= c["ngrids"])
    next(L)
    section(ins, "set_CodeParameters.h", clip=True)
    next(L)
    section(ins, "set_CodeParameters-nopointer.h", clip=True)
    if simd:
        next(L)
        section([p for p in ins if "[" not in p["type"]], "set_CodeParameters-simd.h")
    return "defaults"


C.add("defaults", cstrategy, run_c, quick=48, thorough=1200, shards=8, budget=70,
      rule="set of CodeParameters of all kinds, some adjusted, whose values are read back from the compiled structs and headers")

if __name__ == "__main__":
    sys.exit(C.main())
