#!/usr/bin/env python3
"""C11: every registered gridfunction gets its own slot, with its own metadata, in the generated code."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Violation, require

C = vp.Check("C11", assumptions=[
    "gridfunction names stay distinct when upper-cased (index macros are upper case)",
    "f_infinity / wavespeed lists have one entry per independent component",
    "parity types are specified for scalars, vectors and rank-2 tensors in 3 or 4 dimensions",
])

NAMES = ["u", "vv", "trK", "cf", "alpha", "psi_re", "Psi_Im", "z", "Aux_q", "b_c", "Zeta", "mm"]
TNAMES = ["hDD", "aDD", "lambdaU", "vetU", "B", "RbarDD", "S_x", "gUU", "TUD", "e", "w_dD"]


def hist_strategy():
    from hypothesis import strategies as st
    num = st.integers(-8, 8).map(lambda k: k / 4)

    @st.composite
    def strat(draw):
        ops = []
        for _ in range(draw(st.integers(1, 7))):
            group = draw(st.sampled_from(["EVOL", "EVOL", "AUX", "AUXEVOL", None]))
            kind = draw(st.sampled_from(["scalar", "list", "list", "rank1", "rank2", "rankN", "rankN", "bad"]))
            lists = draw(st.sampled_from(["none", "scalar", "list"]))
            arr = draw(st.sampled_from([None, None, None, "my_gfs"]))
            if kind == "scalar":
                names, n = draw(st.sampled_from(NAMES)), 1
            elif kind == "list":
                names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True))
                n = len(names)
            elif kind == "bad":
                ops.append(dict(kind="bad", names=draw(st.sampled_from(["h1", "", "q0", "x_7"])), group=draw(st.sampled_from(["EVOL", "AUX"])),
                                badgroup=draw(st.sampled_from([None, "evol", "EVOLVED", "AUX_EVOL"]))))
                continue
            else:
                names = draw(st.sampled_from(TNAMES))
                n = 90
            rank = {"rank1": 1, "rank2": 2}.get(kind) or draw(st.integers(1, 3))
            dim = draw(st.sampled_from([3, 3, 3, 4, 2]))
            sym = None
            if rank >= 2 and kind in ("rank2", "rankN"):
                sym = draw(st.sampled_from({2: [None, "sym01", "anti01", "nosym"], 3: [None, "sym01", "sym12", "sym012", "anti02", "anti01"]}[rank]))
            fi = dict(none=None, scalar=draw(num), list=draw(st.lists(num, min_size=n, max_size=n)) if n < 20 else draw(st.integers(0, 1000)))[lists]
            ws = dict(none=None, scalar=draw(num), list=draw(st.lists(num, min_size=n, max_size=n)) if n < 20 else draw(st.integers(0, 1000)))[draw(st.sampled_from([lists, "none", "scalar"]))]
            ops.append(dict(kind=kind, names=names, group=group, rank=rank, dim=dim, sym=sym, fi=fi, ws=ws, arr=arr,
                            fil=lists == "list", wsl=isinstance(ws, list) or (n >= 20 and isinstance(ws, int))))
        offs = draw(st.lists(st.tuples(*[st.integers(-9, 9)] * 3), min_size=1, max_size=3))
        return dict(ops=ops, offs=[list(o) for o in offs], N=draw(st.lists(st.integers(3, 9), min_size=3, max_size=3)))
    return strat()


def comps(op):
    """Independent components, row-major, first appearance."""
    import itertools
    out, sym = [], op["sym"]
    for idx in itertools.product(range(op["dim"]), repeat=op["rank"]):
        i = list(idx)
        zero = False
        if sym and sym != "nosym":
            anti = sym.startswith("anti")
            pos = [int(ch) for ch in sym[4 if anti else 3:]]
            vals = [i[p] for p in pos]
            zero = anti and len(set(vals)) < len(vals)
            for p, v in zip(pos, sorted(vals)):
                i[p] = v
        nm = op["names"] + "".join(map(str, i))
        if not zero and nm not in out:
            out.append(nm)
    return out


def vals(x, is_list, n, default):
    if x is None:
        return [default] * n, {}
    if not is_list:
        return [x] * n, x
    if isinstance(x, list):
        return x, x
    v = [((x * 7 + 13 * k) % 41) / 8 - 2 for k in range(n)]
    return v, v


def apply_ops(ops, strict=True):
    """Run the history on nrpy and on the model. Returns model: name -> dict."""
    import nrpy.grid as gri
    import sympy as sp
    M = {}
    for op in ops:
        if op["kind"] == "bad":
            before = dict(gri.glb_gridfcs_dict)
            for nm, gr in [(op["names"], op["group"])] + ([("okname", op["badgroup"])] if op["badgroup"] else []):
                try:
                    gri.register_gridfunctions(nm, group=gr)
                except ValueError:
                    pass
                else:
                    raise Violation(f"register_gridfunctions({nm!r}, group={gr!r}) was accepted")
            require(dict(gri.glb_gridfcs_dict) == before, "a rejected registration changed the registry")
            continue
        tens = op["kind"] in ("rank1", "rank2", "rankN")
        names = comps(op) if tens else ([op["names"]] if isinstance(op["names"], str) else op["names"])
        fi, fia = vals(op["fi"], op["fil"], len(names), 0.0)
        ws, wsa = vals(op["ws"], op["wsl"], len(names), 1.0)
        kw = {}
        if op["fi"] is not None:
            kw["f_infinity"] = fia
        if op["ws"] is not None:
            kw["wavespeed"] = wsa
        if op["group"]:
            kw["group"] = op["group"]
        if op["arr"]:
            kw["gf_array_name"] = op["arr"]
        if op["kind"] == "rank1":
            r = gri.register_gridfunctions_for_single_rank1(op["names"], dimension=op["dim"], **kw)
        elif op["kind"] == "rank2":
            r = gri.register_gridfunctions_for_single_rank2(op["names"], symmetry=op["sym"], dimension=op["dim"], **kw)
        elif op["kind"] == "rankN":
            r = gri.register_gridfunctions_for_single_rankN(op["names"], rank=op["rank"], symmetry=op["sym"], dimension=op["dim"], **kw)
        else:
            r = gri.register_gridfunctions(op["names"], dimension=op["dim"], **kw)
        if tens:
            flat = r
            for _ in range(op["rank"] - 1):
                flat = [y for x in flat for y in x]
            got = sorted({str(s) for x in flat for s in sp.sympify(x).free_symbols})
            require(got == sorted(names), f"{op} returned an expression over {got}, expected the components {sorted(names)}")
            reals = all(s.is_real for x in flat for s in sp.sympify(x).free_symbols)
        else:
            require([str(x) for x in r] == names, f"register_gridfunctions({names}) returned {r}")
            reals = all(x.is_real for x in r)
        if not tens:
            require(reals, f"{op}: gridfunction symbols are not real")
        for k, n in enumerate(names):
            M.setdefault(n, dict(group=op["group"] or "EVOL", rank=op["rank"] if tens else 0, dim=op["dim"], fi=fi[k], ws=ws[k],
                                 idx=tuple(int(ch) for ch in n[len(op["names"]):]) if tens else (),
                                 arr=op["arr"] or {"EVOL": "in_gfs", "AUX": "aux_gfs", "AUXEVOL": "auxevol_gfs"}[op["group"] or "EVOL"]))
    require(sorted(gri.glb_gridfcs_dict) == sorted(M), f"registered gridfunctions {sorted(gri.glb_gridfcs_dict)}, expected {sorted(M)}")
    return M


def parity(m):
    """None: not specified."""
    def tens(i, j):
        i, j = min(i, j), max(i, j)
        return 4 + {(0, 0): 0, (0, 1): 1, (0, 2): 2, (1, 1): 3, (1, 2): 4, (2, 2): 5}[(i, j)]
    if m["rank"] == 0:
        return 0
    if m["dim"] == 3 or (m["dim"] == 2 and m["rank"] == 1):
        return m["idx"][0] + 1 if m["rank"] == 1 else tens(*m["idx"]) if m["rank"] == 2 else None
    if m["dim"] == 4:
        if m["rank"] == 1:
            return m["idx"][0]
        if m["rank"] == 2:
            i, j = sorted(m["idx"])
            return j if i == 0 else tens(i - 1, j - 1)
    return None


def run_registry(c):
    import bhah
    bhah.start("double", 4)
    import nrpy.grid as gri
    from nrpy.infrastructures.BHaH.CurviBoundaryConditions import CurviBoundaryConditions as cbc
    from nrpy.infrastructures.BHaH import BHaH_defines_h as bd
    gri.glb_gridfcs_dict.clear()
    M = apply_ops(c["ops"])
    groups = {g: [n for n in M if M[n]["group"] == g] for g in ("EVOL", "AUX", "AUXEVOL")}
    lists = dict(zip(("EVOL", "AUX", "AUXEVOL"), gri.BHaHGridFunction.gridfunction_lists()))
    for g in groups:
        require(sorted(lists[g]) == sorted(groups[g]), f"gridfunction_lists(): {g} = {lists[g]}, registered {groups[g]}")
    # parity types
    par_ok = {g: all(parity(M[n]) is not None for n in groups[g]) for g in groups}
    for g in groups:
        if groups[g] and par_ok[g]:
            got = gri.BHaHGridFunction.set_parity_types(lists[g])
            require(got == [parity(M[n]) for n in lists[g]], f"parity types of {lists[g]}: {got}, expected {[parity(M[n]) for n in lists[g]]}")
    ptxt = ""
    pw = (False, False)
    if par_ok["EVOL"]:
        pw = (par_ok["AUX"], par_ok["AUXEVOL"])
        ptxt = cbc.BHaH_defines_set_gridfunction_defines_with_parity_types(set_parity_on_aux=pw[0], set_parity_on_auxevol=pw[1], verbose=False)
    d = vp.fresh_dir()
    bd.output_BHaH_defines_h(project_dir=d, enable_intrinsics=False, enable_rfm_precompute=False)
    N = c["N"]
    offs = [(0, 0, 0)] + [tuple(o) for o in c["offs"]]
    src = ['#include "BHaH_defines.h"', ptxt, "int main(void) {",
           f"const int Nxx_plus_2NGHOSTS0={N[0]}, Nxx_plus_2NGHOSTS1={N[1]}, Nxx_plus_2NGHOSTS2={N[2]};",
           "static REAL buf[1]; (void)Nxx_plus_2NGHOSTS2;"]
    for a in sorted({"in_gfs", "aux_gfs", "auxevol_gfs", "my_gfs", "alt"}):
        src.append(f"REAL *{a} = buf;")
    for g in groups:
        src.append(f'printf("NUM_{g} %d\\n", NUM_{g}_GFS);')
        for n in groups[g]:
            src.append(f'printf("IDX {n} %d\\n", {n.upper()}GF);')
            if g == "EVOL":
                src.append(f'printf("META {n} %.17g %.17g\\n", gridfunctions_f_infinity[{n.upper()}GF], gridfunctions_wavespeed[{n.upper()}GF]);')
    if ptxt:
        for g, arr, on in [("EVOL", "evol_gf_parity", True), ("AUX", "aux_gf_parity", pw[0]), ("AUXEVOL", "auxevol_gf_parity", pw[1])]:
            if on and groups[g]:
                src.append(f'printf("PN {g} %d\\n", (int)(sizeof({arr})/sizeof({arr}[0])));')
                for n in groups[g]:
                    src.append(f'printf("PAR {n} %d\\n", (int){arr}[{n.upper()}GF]);')
    want = []
    base = (11, 12, 13)
    for n, m in M.items():
        gf = gri.glb_gridfcs_dict[n]
        for o in offs:
            w = {}
            for tag, txt, arr in [("r", gf.read_gf_from_memory_Ccode_onept(*o), m["arr"]),
                                  ("a", gri.BHaHGridFunction.access_gf(n, *o), "in_gfs"),
                                  ("x", gri.BHaHGridFunction.access_gf(n, *o, gf_array_name="alt"), "alt"),
                                  ("s", gf.read_gf_from_memory_Ccode_onept(*o, enable_simd=True, gf_array_name="alt"), "alt")]:
                if tag == "s":
                    require(txt.startswith("ReadSIMD(&") and txt.endswith(")"), f"SIMD access {txt}")
                    txt = txt[len("ReadSIMD(&"):-1]
                src.append('{ const int i0=%d, i1=%d, i2=%d; printf("A %%ld\\n", (long)(&%s - %s)); }' % (*base, txt, arr))
                want.append((n, o, tag))
    src += ["return 0; }"]
    open(os.path.join(d, "BHaH_function_prototypes.h"), "w").write("")
    p = os.path.join(d, "t.c")
    open(p, "w").write("\n".join(src))
    exe = vp.compile_c([p], out=os.path.join(d, "a.out"), flags=["-O0", "-I" + d], cwd=d)
    out = vp.run_exe(exe).stdout.decode().splitlines()
    idx, acc = {}, []
    for ln in out:
        t = ln.split()
        if t[0].startswith("NUM_"):
            g = t[0][4:]
            require(int(t[1]) == len(groups[g]), f"NUM_{g}_GFS = {t[1]}, {len(groups[g])} registered: {groups[g]}")
        elif t[0] == "IDX":
            idx[t[1]] = int(t[2])
        elif t[0] == "META":
            m = M[t[1]]
            require(float(t[2]) == m["fi"] and float(t[3]) == m["ws"],
                    f"{t[1]}: f_infinity, wavespeed in the generated code are {t[2]}, {t[3]}; registered with {m['fi']}, {m['ws']}")
        elif t[0] == "PN":
            require(int(t[2]) == len(groups[t[1]]), f"parity array of {t[1]} has {t[2]} entries for {len(groups[t[1]])} gridfunctions")
        elif t[0] == "PAR":
            require(int(t[2]) == parity(M[t[1]]), f"{t[1]} (rank {M[t[1]]['rank']}, dimension {M[t[1]]['dim']}) has parity type {t[2]} in the generated code, expected {parity(M[t[1]])}")
        elif t[0] == "A":
            acc.append(int(t[1]))
    for g in groups:
        got = sorted(idx[n] for n in groups[g])
        require(got == list(range(len(groups[g]))), f"indices of the {g} gridfunctions are { {n: idx[n] for n in groups[g]} }, not one slot each in 0..{len(groups[g]) - 1}")
    for (n, o, tag), a in zip(want, acc):
        e = (base[0] + o[0]) + N[0] * ((base[1] + o[1]) + N[1] * ((base[2] + o[2]) + N[2] * idx[n]))
        require(a == e, f"access ({tag}) to {n} at offset {o} reads element {a} of its array, expected {e} (N={N}, index {idx[n]})")
    require(len(want) == len(acc), "driver output truncated")
    return f"{sum(bool(v) for v in groups.values())} groups" if len(M) >= 3 else None


C.add("registry", hist_strategy, run_registry, quick=700, thorough=6000, shards=8, budget=28,
      rule="at least three gridfunctions registered; counted by number of non-empty groups")


# ------------------------------------------------------------------ Einstein Toolkit accessors
def et_strategy():
    from hypothesis import strategies as st
    o = st.tuples(*[st.integers(-12, 12)] * 3).map(list)
    return st.fixed_dictionaries(dict(infra=st.sampled_from(["ETLegacy", "CarpetX"]), name=st.sampled_from(NAMES + ["hDD"]), group=st.sampled_from(["EVOL", "AUX", "AUXEVOL"]),
                                      offs=st.lists(o, min_size=4, max_size=10), suffix=st.sampled_from([None, True, False]), N=st.lists(st.integers(3, 30), min_size=3, max_size=3),
                                      cent=st.sampled_from(["CCC", "VVV", "CVC", "VVC"]), stride=st.lists(st.integers(1, 40), min_size=3, max_size=3)))


def run_et(c):
    import nr
    nr.reset(c["infra"])
    import nrpy.grid as gri
    gri.glb_gridfcs_dict.clear()
    kw = dict(centering=c["cent"]) if c["infra"] == "CarpetX" else {}
    if c["name"] == "hDD":
        gri.register_gridfunctions_for_single_rank2("hDD", symmetry="sym01", group=c["group"], **kw)
        names = ["hDD00", "hDD01", "hDD02", "hDD11", "hDD12", "hDD22"]
    else:
        gri.register_gridfunctions(c["name"], group=c["group"], **kw)
        names = [c["name"]]
    sk = {} if c["suffix"] is None else dict(use_GF_suffix=c["suffix"])
    suf = "" if c["suffix"] is False else "GF"
    N, S = c["N"], c["stride"]
    src = ["#include <cstdio>", "struct GH { int n0, n1, n2; };", "static inline long CCTK_GFINDEX3D(const GH *g, int i, int j, int k) { return i + (long)g->n0*(j + (long)g->n1*k); }",
           "struct V { long x; }; struct P { long I; long DI[3]; };"]
    cls = gri.ETLegacyGridFunction if c["infra"] == "ETLegacy" else gri.CarpetXGridFunction
    body, exp = [], []
    for k, n in enumerate(names):
        # each gridfunction is an object that reports (which, index)
        if c["infra"] == "ETLegacy":
            src.append(f"static struct G{k}_t {{ struct R {{ int g; long i; const R *operator&() const {{ return this; }} }}; R r; const R &operator[](long i) {{ r.g={k}; r.i=i; return r; }} }} {n}{suf};")
        else:
            src.append(f"static struct G{k}_t {{ struct R {{ int g; long i; const R *operator&() const {{ return this; }} }}; R r; const R &operator()(long i) {{ r.g={k}; r.i=i; return r; }} }} {n}{suf};")
        gf = gri.glb_gridfcs_dict[n]
        for o in c["offs"]:
            for simd in (False, True):
                for txt in [gf.read_gf_from_memory_Ccode_onept(*o, **sk, **(dict(enable_simd=True) if simd else {}))] + ([] if simd else [cls.access_gf(n, *o, **sk)]):
                    if simd:
                        require(txt.startswith("ReadSIMD(&") and txt.endswith(")"), f"SIMD access {txt}")
                        txt = txt[len("ReadSIMD(&"):-1]
                    body.append(f'{{ auto q = {txt}; printf("%d %ld\\n", q.g, q.i); }}')
                    e = (5 + o[0] + N[0] * (6 + o[1] + N[1] * (7 + o[2]))) if c["infra"] == "ETLegacy" else 1000 + sum(a * b for a, b in zip(o, S))
                    exp.append((k, e, txt, o))
    src.append("int main() { GH gh{%d,%d,%d}; const GH *cctkGH=&gh; const int i0=5,i1=6,i2=7; P p{1000,{%d,%d,%d}}; (void)cctkGH;(void)i0;(void)i1;(void)i2;(void)p;" % (*N, *S))
    src += body + ["return 0; }"]
    d = vp.fresh_dir()
    p = os.path.join(d, "t.cpp")
    open(p, "w").write("\n".join(src))
    exe = vp.compile_c([p], out=os.path.join(d, "a.out"), flags=["-O0"], cc="g++", cwd=d)
    out = [tuple(map(int, ln.split())) for ln in vp.run_exe(exe).stdout.decode().splitlines()]
    require(len(out) == len(exp), "driver output truncated")
    for (g, i), (k, e, txt, o) in zip(out, exp):
        require((g, i) == (k, e), f"{c['infra']} access {txt} for offset {o} reads gridfunction {g} element {i}, expected {k} element {e}")
    return c["infra"] if any(any(o) for o in c["offs"]) else None


C.add("et_access", et_strategy, run_et, quick=120, thorough=1200, shards=8, budget=28, rule="some offset is non-zero")


# ------------------------------------------------------------------ reproducible across interpreter runs
def hs_strategy():
    from hypothesis import strategies as st
    return st.tuples(hist_strategy(), st.lists(st.integers(1, 4000), min_size=2, max_size=2, unique=True)).map(lambda t: dict(ops=t[0]["ops"], seeds=t[1]))


DUMP = r"""
import sys, json
sys.path[:0] = [{checks!r}, {lib!r}]
import vp, nr
nr.reset("BHaH")
import nrpy.grid as gri
gri.glb_gridfcs_dict.clear()
import c11
import io, contextlib
with contextlib.redirect_stdout(io.StringIO()):
    c11.apply_ops(json.loads({ops!r}))
print(json.dumps([list(gri.glb_gridfcs_dict), gri.BHaHGridFunction.gridfunction_defines()]))
"""


def run_hs(c):
    import json, subprocess
    code = DUMP.format(checks=os.path.dirname(os.path.abspath(__file__)), lib=os.path.dirname(vp.__file__), ops=json.dumps(c["ops"]))
    outs = []
    for s in c["seeds"]:
        r = subprocess.run([sys.executable, "-B", "-c", code], capture_output=True, env=dict(os.environ, PYTHONHASHSEED=str(s)), cwd=vp.work())
        if r.returncode:
            if b"Violation" in r.stderr:
                raise Violation(r.stderr.decode()[-1500:])
            raise vp.HarnessError(r.stderr.decode()[-2000:])
        outs.append(json.loads(r.stdout.decode().splitlines()[-1]))
    require(outs[0] == outs[1], f"registration order or index macros depend on the interpreter's hash seed: {outs[0]} != {outs[1]}")
    return "rankN" if any(o["kind"] == "rankN" for o in c["ops"]) else None


C.add("hashseed", hs_strategy, run_hs, quick=16, thorough=300, shards=8, budget=28, rule="the history registers a rank-N tensor")

if __name__ == "__main__":
    sys.exit(C.main())
