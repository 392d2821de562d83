#!/usr/bin/env python3
"""C23: generated Einstein Toolkit thorns (ETLegacy and CarpetX) evolve Einstein's equations as their own ccl files declare."""
import io, os, random, re, sys
import contextlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Violation, require

C = vp.Check("C23", assumptions=[
    "Cactus is replaced by a small model of it (lib/cactus.py): it parses the thorn's own interface/param/schedule.ccl, declares to each function exactly the variables its schedule entry reads and writes, and orders functions by before/after",
    "SIMD kernels may write up to one vector beyond the interior in the first direction (as documented by the generator); points there are not judged",
    "kernels: Cartesian coordinates (the thorns' only coordinate system), conformal factor W, chi or phi",
])
R = range(3)
X = "xyz"


def imports():
    import nr
    import nrpy.params as par
    par.set_parval_from_str("Infrastructure", "ETLegacy")
    import nrpy.equations.general_relativity.BSSN_constraints  # noqa
    import nrpy.equations.general_relativity.BSSN_gauge_RHSs  # noqa
    import nrpy.helpers.parallel_codegen  # noqa
    import nrpy.infrastructures.ETLegacy.boundary_conditions  # noqa
    import nrpy.infrastructures.CarpetX.boundary_conditions  # noqa
    if nr._SNAP is None:
        nr.snapshot()


def start(infra, fd=4):
    imports()
    import nr
    import nrpy.params as par
    import nrpy.reference_metric as rm
    import nrpy.equations.general_relativity.BSSN_quantities as q
    import nrpy.equations.general_relativity.BSSN_RHSs as r
    import nrpy.equations.general_relativity.BSSN_constraints as c
    nr.reset(infra)
    for d in (q.BSSN_quantities, r.BSSN_RHSs, c.BSSN_constraints, rm.reference_metric):
        d.clear()
    par.set_parval_from_str("fd_order", fd)
    par.set_parval_from_str("parallel_codegen_enable", False)
    par.set_parval_from_str("register_MU_gridfunctions", True)


def parity(name, rank, dim):
    """Reflection signs of a component under x->-x, y->-y, z->-z."""
    s = [1, 1, 1]
    for ch in name[len(name) - rank:] if rank else "":
        k = int(ch) - (1 if dim == 4 else 0)
        if k >= 0:
            s[k] *= -1
    return s


def write_ccl(infra, d, thorn, inherits, newrad=True, shares="", storage=None):
    import importlib
    base = f"nrpy.infrastructures.{infra}."
    I = importlib.import_module(base + "interface_ccl")
    P = importlib.import_module(base + "param_ccl")
    S = importlib.import_module(base + "schedule_ccl")
    M = importlib.import_module(base + "make_code_defn")
    with contextlib.redirect_stdout(io.StringIO()):
        S.construct_schedule_ccl(project_dir=d, thorn_name=thorn, STORAGE=storage or "STORAGE: evol_variables[3]\nSTORAGE: evol_variables_rhs[1]\nSTORAGE: auxevol_variables[1]\nSTORAGE: aux_variables[3]")
        I.construct_interface_ccl(project_dir=d, thorn_name=thorn, inherits=inherits, USES_INCLUDEs="USES INCLUDE: Symmetry.h", is_evol_thorn=True, enable_NewRad=newrad)
        ret = P.construct_param_ccl(project_dir=d, thorn_name=thorn, shares_extends_str=shares)
        M.output_CFunctions_and_construct_make_code_defn(project_dir=d, thorn_name=thorn)
    return ret


# ------------------------------------------------------------------ ccl files of arbitrary registrations
def ccl_strategy():
    from hypothesis import strategies as st
    letters = st.text(alphabet="abcdefghjkmnopqrstuvwABCDEFGHJKMNOPQRSTVW", min_size=2, max_size=5)
    gf = st.tuples(letters, st.sampled_from([0, 0, 0, 1, 1, 2, 2]), st.sampled_from([3, 3, 3, 4]), st.sampled_from(["EVOL", "EVOL", "AUXEVOL", "AUX"]),
                   st.integers(-40, 40), st.integers(1, 12))
    fn = st.tuples(st.integers(0, 1), st.lists(st.tuples(st.integers(0, 9), st.booleans()), min_size=1, max_size=3), st.lists(st.integers(0, 5), max_size=3))
    return st.fixed_dictionaries(dict(
        infra=st.sampled_from(["ETLegacy", "ETLegacy", "CarpetX"]),
        thorns=st.lists(st.text(alphabet="ABCabcXYZ", min_size=2, max_size=6), min_size=2, max_size=2, unique=True),
        gfs=st.lists(gf, min_size=1, max_size=6), fns=st.lists(fn, min_size=0, max_size=6),
        params=st.lists(st.tuples(st.sampled_from(["CCTK_REAL", "REAL", "CCTK_INT"]), st.integers(-99, 99)), min_size=6, max_size=6), fd=st.sampled_from([2, 4, 6, 8]),
        ng=st.tuples(*[st.integers(1, 3)] * 3), N=st.tuples(*[st.integers(1, 3)] * 3)))


def run_ccl(c):
    import importlib
    import numpy as np
    import cactus
    infra = c["infra"]
    start(infra, c["fd"])
    import nrpy.c_function as cfc
    import nrpy.grid as gri
    import nrpy.params as par
    base = f"nrpy.infrastructures.{infra}."
    expect = {}
    with contextlib.redirect_stdout(io.StringIO()):
        for b, rank, dim, grp, fi, ws in c["gfs"]:
            if any(n.lower().startswith(b.lower()) or b.lower().startswith(re.sub(r"[\d]|U+$|D+$", "", n).lower()) for n in expect):
                continue
            kw = dict(group=grp, f_infinity=fi / 4, wavespeed=ws / 8)
            if rank == 0:
                gri.register_gridfunctions(b, dimension=dim, **kw)
                names = [b]
            elif rank == 1:
                names = [str(x) for x in gri.register_gridfunctions_for_single_rank1(b + "U", dimension=dim, **kw)]
            else:
                m = gri.register_gridfunctions_for_single_rank2(b + "DD", symmetry="sym01", dimension=dim, **kw)
                names = [str(m[i][j]) for i in range(dim) for j in range(i, dim)]
            for n in names:
                expect[n] = (rank, dim, grp, fi / 4, ws / 8)
        if not any(v[2] == "EVOL" for v in expect.values()):
            return None
        pn = [f"par{'abcdef'[k]}" for k in range(6)]
        for n, (ty, dv) in zip(pn, c["params"]):
            par.register_CodeParameter(ty, "mod", n, dv if ty == "CCTK_INT" else dv / 8)
        par.register_CodeParameter("CCTK_INT", "mod", "FD_order", c["fd"])
        bins = ["STARTUP", "BASEGRID", "CCTK_INITIAL", "MoL_CalcRHS", "ODESolvers_RHS", "MoL_PostStep", "ODESolvers_PostStep", "Driver_BoundarySelect", "CCTK_ANALYSIS", "mol_poststep"]
        mine = {t: [] for t in c["thorns"]}
        T0, T1 = c["thorns"]
        z = importlib.import_module(base + "zero_rhss")
        bc = importlib.import_module(base + "boundary_conditions")
        for t in c["thorns"]:
            z.register_CFunction_zero_rhss(t)
            bc.register_CFunctions(t)
            if infra == "ETLegacy":
                importlib.import_module(base + "Symmetry_registration").register_CFunction_Symmetry_registration_oldCartGrid3D(t)
                importlib.import_module(base + "MoL_registration").register_CFunction_MoL_registration(t)
        std = {t: [n for n, f in cfc.CFunction_dict.items() if f.ET_thorn_name == t] for t in c["thorns"]}
        used = {t: set() for t in c["thorns"]}
        for k, (w, ents, ps) in enumerate(c["fns"]):
            t = c["thorns"][w]
            name = f"{t}_fun{'abcdef'[k]}"
            ee = []
            for q, (b, cond) in enumerate(ents):
                e = f"\nschedule FUNC_NAME in {bins[b]} as FUNC_NAME_{'abc'[q]}\n{{\n  LANG: C\n  READS: {'evol_variables' if q else sorted(n for n in expect if expect[n][2] == 'EVOL')[0] + 'GF'}(everywhere)\n}} \"entry {q}\"\n"
                if cond:
                    e = f"\nif(FD_order == {c['fd']}) {{{e}}}\n"
                ee.append((bins[b], e))
                mine[t].append((name, bins[b].upper(), f"{name}_{'abc'[q]}", cond))
            cfc.register_CFunction(subdirectory=t, includes=["cctk.h", "cctk_Arguments.h", "cctk_Parameters.h"], desc=name, cfunc_type="void", name=name, params="CCTK_ARGUMENTS",
                                   body=f'printf("RAN {name}\\n");', ET_thorn_name=t, ET_schedule_bins_entries=ee, ET_current_thorn_CodeParams_used=[pn[p] for p in ps] or None)
            used[t] |= {pn[p] for p in ps}
    d = vp.fresh_dir()
    what = f"{infra} thorns {c['thorns']}"
    for t in c["thorns"]:
        ret = write_ccl(infra, d, t, "ADMBase")
        th = cactus.Thorn(d, t)
        # interface.ccl
        require(th.iface["implements"] == t, f"{what}: interface.ccl of {t} implements {th.iface['implements']}")
        G = {g: v["vars"] for g, v in th.iface["groups"].items()}
        want = {"evol_variables": [n + "GF" for n in expect if expect[n][2] == "EVOL"], "evol_variables_rhs": [n + "_rhsGF" for n in expect if expect[n][2] == "EVOL"],
                "auxevol_variables": [n + "GF" for n in expect if expect[n][2] == "AUXEVOL"], "aux_variables": [n + "GF" for n in expect if expect[n][2] == "AUX"]}
        for g, v in want.items():
            require(sorted(G.get(g, [])) == sorted(v), f"{what}: interface.ccl of {t} declares {g} = {G.get(g)}, registered gridfunctions are {v}")
        require(set(G) <= set(want), f"{what}: interface.ccl of {t} declares groups {sorted(G)}")
        # evolved variables and right-hand sides are paired by position
        require([v[:-2] + "_rhsGF" for v in G["evol_variables"]] == G["evol_variables_rhs"], f"{what}: MoL pairs {G['evol_variables']} with {G['evol_variables_rhs']}")
        if infra == "CarpetX":
            for g in G:
                if g.endswith("_rhs"):
                    continue
                m = re.search(r"parities=\{([^}]*)\}", th.iface["groups"][g]["attrs"])
                got = [int(x) for x in m.group(1).split()] if m else None
                exp = [x for v in G[g] for x in parity(v[:-2], *expect[v[:-2]][:2])]
                require(got == exp, f"{what}: interface.ccl gives {g} = {G[g]} the parities {got}, expected {exp}")
            m = re.search(r"rhs=\"(\w+)\"", th.iface["groups"]["evol_variables"]["attrs"])
            require(m and m.group(1) == "evol_variables_rhs", f"{what}: evol_variables not connected to its right-hand sides: {th.iface['groups']['evol_variables']['attrs']}")
        # param.ccl
        wantp = set(used[t]) | ({"FD_order"} if infra == "ETLegacy" else set())
        require(set(th.params) == wantp and sorted(ret) == sorted(wantp), f"{what}: param.ccl of {t} declares {sorted(th.params)} (returned {ret}), its functions use {sorted(wantp)}")
        for n, (ty, dv, rng_) in th.params.items():
            P = par.glb_code_params_dict[n]
            require(ty == P.cparam_type and float(dv) == float(P.defaultvalue), f"{what}: param.ccl gives {n} type {ty} default {dv}, registered {P.cparam_type} {P.defaultvalue}")
            require(re.match(r"\s*\*:\*\s*::", rng_), f"{what}: param.ccl restricts {n} to {rng_!r}")
        # schedule.ccl
        got = sorted((it["name"], it["bin"], it["alias"], bool(it["cond"])) for it in th.items if it["name"].startswith(tuple(n for n, *_ in mine[t])) and not it["group"]) if mine[t] else []
        require(got == sorted(mine[t]), f"{what}: schedule.ccl of {t} schedules {got}, registered {sorted(mine[t])}")
        other = T1 if t == T0 else T0
        allf = {n for n, f in cfc.CFunction_dict.items() if f.ET_thorn_name == t}
        sched = {it["name"] for it in th.items if not it["group"]}
        require(sched == allf, f"{what}: schedule.ccl of {t} schedules {sorted(sched)}; the thorn's functions are {sorted(allf)}")
        for it in th.items:
            require("FUNC_NAME" not in it["name"] + str(it["alias"]) + str(it["after"]) + str(it["before"]), f"{what}: schedule.ccl of {t} leaves FUNC_NAME in place")
        require(th.storage == [("evol_variables", "3"), ("evol_variables_rhs", "1"), ("auxevol_variables", "1"), ("aux_variables", "3")], f"{what}: STORAGE lines became {th.storage}")
        # sources
        ext = ".cxx" if infra == "CarpetX" else ".c"
        require(sorted(th.srcs) == sorted(n + ext for n in allf) and len(set(th.srcs)) == len(th.srcs), f"{what}: make.code.defn of {t} lists {th.srcs}, functions are {sorted(allf)}")
        for s in th.srcs:
            txt = open(os.path.join(d, t, "src", s)).read()
            require(txt == cfc.CFunction_dict[s[:-len(ext)]].full_function, f"{what}: {t}/src/{s} does not hold the registered function")
        files = sorted(f for f in os.listdir(os.path.join(d, t, "src")))
        require(files == sorted(th.srcs + ["make.code.defn"]), f"{what}: {t}/src holds {files}")
        if t == T1:
            continue
        # run the registration functions and the zeroing of the right-hand sides
        prog = cactus.Program(th, cxx=infra == "CarpetX", asan=False, opt="-O0", jobs=2)
        lsh = [n + 2 * g for n, g in zip(c["N"], c["ng"])]
        rng = np.random.default_rng(1)
        data = {n: rng.uniform(1, 2, lsh) for n in prog.names}
        fns = [f for f in prog.fns]
        out, log, padbad = prog.run(lsh, c["ng"], [.1, .1, .1], data, fns, {n: (float(dv)) for n, (ty, dv, _) in th.params.items()}, what=what, pad=1)
        require(not padbad, f"{what}: a function wrote outside the grid's points")
        for n in prog.names:
            if n.endswith("_rhsGF") and n in G["evol_variables_rhs"]:
                require((out[n] == 0).all(), f"{what}: zero_rhss leaves {n} nonzero at {(out[n] != 0).sum()} points")
            else:
                require(np.array_equal(out[n], data[n]), f"{what}: {n} was changed")
        ln = lambda k: [l.split()[1:] for l in log if l.split()[:1] == [k]]
        ev = [n for n in expect if expect[n][2] == "EVOL"]
        nr_ = {tuple(l) for l in ln("NEWRAD")}
        wantn = {(n + "GF", n + "_rhsGF", "%.17g" % expect[n][3], "%.17g" % expect[n][4], "1") for n in ev}
        require(nr_ == wantn and len(ln("NEWRAD")) == len(ev), f"{what}: radiation boundary conditions applied: {sorted(nr_ ^ wantn)} differ (variable, rhs, value at infinity, speed, falloff)")
        require(not ln("ERROR"), f"{what}: {ln('ERROR')}")
        if infra == "ETLegacy":
            sym = {l[0]: [int(x) for x in l[1:]] for l in ln("SYM")}
            wants = {f"{t}::{n}GF": parity(n, *expect[n][:2]) for n in expect}
            bad = {k: (sym.get(k), wants.get(k)) for k in set(sym) | set(wants) if sym.get(k) != wants.get(k)}
            require(not bad and len(ln("SYM")) == len(wants), f"{what}: reflection symmetries (registered, expected): {bad}")
            bw = str(c["fd"] // 2 + 1)
            wd = sorted([[f"{t}::{n}GF", "none", "63", "1", "-1"] for n in ev] + [[f"{t}::{n}GF", "flat", "63", bw, "-1"] for n in expect if expect[n][2] == "AUX"])
            require(sorted(ln("DBC")) == wd, f"{what}: driver boundary conditions {sorted(ln('DBC'))}, expected {wd}")
            require(sorted(ln("BBC")) == wd, f"{what}: boundary conditions {sorted(ln('BBC'))}, expected {wd}")
            g = {l[1]: l[0] for l in ln("GROUP")}
            require(ln("MOL") == [[g.get(f"{t}::evol_variables"), g.get(f"{t}::evol_variables_rhs")]], f"{what}: MoL registration {ln('MOL')} of groups {g}")
        ran = [l[0] for l in ln("RAN")]
        require(sorted(ran) == sorted({n for n, *_ in mine[t]}), f"{what}: functions ran: {ran}")
    return infra


C.add("ccl", ccl_strategy, run_ccl, quick=30, thorough=400, shards=4, budget=200, rule="two thorns with random gridfunctions, functions and parameters; at least one evolved gridfunction")


# ------------------------------------------------------------------ GR kernels
SHIFTS = ["Frozen", "GammaDriving2ndOrder_NoCovariant", "GammaDriving2ndOrder_Covariant", "GammaDriving1stOrder_Covariant", "NonAdvectingGammaDriving"]
EVOL = ["alpha", "cf", "trK"] + [f"{v}{i}" for v in ("vetU", "betU", "lambdaU") for i in R] + [f"{v}{i}{j}" for v in ("hDD", "aDD") for i in R for j in range(i, 3)]
GAUGE = {"alpha"} | {f"{v}{i}" for v in ("vetU", "betU") for i in R}


def cases(tier, rng):
    out = []
    for n in range(12 if tier == "quick" else 80):
        infra = ["ETLegacy", "CarpetX", "ETLegacy"][n % 3]
        T4 = [True, False, True, False, False][n % 5]
        cf = ["W", "W", "chi", "phi"][(n + rng.randrange(2)) % 4]
        simd = infra == "ETLegacy" and cf == "W" and rng.random() < 0.75
        KO = rng.random() < 0.85
        shift = rng.choice(SHIFTS) if n else "GammaDriving2ndOrder_NoCovariant"
        lapse = rng.choice(["OnePlusLog", "OnePlusLog", "OnePlusLog", "Frozen", "OnePlusLogAlt"])
        et = infra == "ETLegacy"
        out.append(dict(infra=infra, T4=T4, cf=cf, simd=simd, fd=rng.choice([2, 4, 4, 6]), shift=shift, lapse=lapse, KO=KO, CAKO=rng.random() < 0.5, CAHD=et and rng.random() < 0.5, SSL=et and rng.random() < 0.5,
                        thorn=(rng.choice(["Baikal", "Baikal", "Evolver"]) if T4 else rng.choice(["BaikalVacuum", "Evolver"])) + ("X" if infra == "CarpetX" else ""),
                        both=rng.random() < (0.2 if tier == "quick" else 0.5), golden=tier != "quick" and rng.random() < 0.25, threads=rng.choice([1, 3]), states=2 if tier == "quick" else 5, seed=rng.randint(0, 10 ** 9)))
    return out


def generate(c, d):
    import importlib
    start(c["infra"], c["fd"])
    import nrpy.params as par
    par.set_parval_from_str("EvolvedConformalFactor_cf", c["cf"])
    base = f"nrpy.infrastructures.{c['infra']}."
    gr = lambda m: getattr(importlib.import_module(base + "general_relativity." + m), "register_CFunction_" + m)
    t = c["thorn"]
    import nrpy.validate_expressions.validate_expressions as ve
    keep = ve.compare_or_generate_trusted_results, ve.process_dictionary_of_expressions
    if c["infra"] == "CarpetX":         # its generator also compares with files in the source tree; not judged here, and it must not write there
        ve.compare_or_generate_trusted_results = lambda *a, **k: None
        ve.process_dictionary_of_expressions = lambda *a, **k: {}
    import nrpy.c_codegen as ccg
    codegen = ccg.c_codegen

    def plain(*a, **k):     # GoldenKernels rewrite the same expressions (C01 covers them) at several times the cost
        if not c.get("golden"):
            k["enable_GoldenKernels"] = False
        return codegen(*a, **k)
    try:
        ccg.c_codegen = plain
        with contextlib.redirect_stdout(io.StringIO()):
            par.register_CodeParameter("CCTK_REAL", "t", "lapse_floor", "1e-15")
            par.register_CodeParameter("CCTK_INT", "t", "FD_order", "4")
            orders = [c["fd"]] + ([{2: 4, 4: 2, 6: 4}[c["fd"]]] if c["both"] else [])
            if c["T4"]:
                gr("T4DD_to_T4UU")(thorn_name=t, CoordSystem="Cartesian", enable_rfm_precompute=False)
            for fd in orders:
                par.set_parval_from_str("fd_order", fd)
                gr("ADM_to_BSSN")(thorn_name=t, CoordSystem="Cartesian", fd_order=fd)
                if fd == c["fd"]:
                    gr("Ricci_eval")(thorn_name=t, CoordSystem="Cartesian", enable_rfm_precompute=False, enable_simd=c["simd"], fd_order=fd)
                    gr("rhs_eval")(thorn_name=t, CoordSystem="Cartesian", enable_rfm_precompute=False, enable_T4munu=c["T4"], enable_simd=c["simd"], fd_order=fd,
                                   LapseEvolutionOption=c["lapse"], ShiftEvolutionOption=c["shift"], enable_KreissOliger_dissipation=c["KO"], KreissOliger_strength_gauge=0.25, KreissOliger_strength_nongauge=0.25 if not c["CAKO"] else 0.125,
                                   enable_CAKO=c["CAKO"], enable_CAHD=c["CAHD"], enable_SSL=c["SSL"])
                    gr("BSSN_constraints")(thorn_name=t, CoordSystem="Cartesian", enable_rfm_precompute=False, enable_T4munu=c["T4"], enable_simd=c["simd"], fd_order=fd)
            if c["infra"] == "ETLegacy":
                gr("RegisterSlicing")(thorn_name=t)
            gr("BSSN_to_ADM")(thorn_name=t, CoordSystem="Cartesian")
            gr("floor_the_lapse")(thorn_name=t)
            gr("enforce_detgammahat_constraint")(thorn_name=t, CoordSystem="Cartesian", enable_rfm_precompute=False)
            importlib.import_module(base + "boundary_conditions").register_CFunctions(t)
            importlib.import_module(base + "zero_rhss").register_CFunction_zero_rhss(t)
            if c["infra"] == "ETLegacy":
                importlib.import_module(base + "Symmetry_registration").register_CFunction_Symmetry_registration_oldCartGrid3D(t)
                importlib.import_module(base + "MoL_registration").register_CFunction_MoL_registration(t)
    finally:
        ccg.c_codegen = codegen
        ve.compare_or_generate_trusted_results, ve.process_dictionary_of_expressions = keep
    x = "X" if c["infra"] == "CarpetX" else ""
    write_ccl(c["infra"], d, t, f"ADMBase{x} Boundary Grid" + (f" TmunuBase{x}" if c["T4"] else ""))
    if c["simd"]:
        from nrpy.helpers.generic import copy_files
        copy_files(package="nrpy.helpers", filenames_list=["simd_intrinsics.h"], project_dir=os.path.join(d, t, "src"), subdirectory="simd")
        f = os.path.join(d, t, "src", "simd", "simd_intrinsics.h")
        s = open(f).read().replace("REAL_SIMD_ARRAY REAL", "REAL_SIMD_ARRAY CCTK_REAL")
        open(f, "w").write(s)


def close(got, want, scale, what, tol=1e-7):
    ok = got == got and abs(got - want) <= tol * (abs(want) + scale)
    require(ok, f"{what}: the thorn computes {got!r}, expected {want!r}")


def run(c):
    import numpy as np
    from mpmath import mp, mpf
    import adm, coords, cactus, simdlib, fdmodel
    from jet import monos
    mp.dps = 30
    d = vp.fresh_dir()
    generate(c, d)
    t, cf, ET = c["thorn"], c["cf"], c["infra"] == "ETLegacy"
    th = cactus.Thorn(d, t)
    tag0 = f"{c['infra']} thorn {t} " + " ".join(f"{k}={c[k]}" for k in ("T4", "cf", "simd", "fd", "lapse", "shift", "KO", "CAKO", "CAHD", "SSL"))
    flags = ["-fopenmp"] + (["-mavx2", "-mfma"] if c["simd"] and "avxfma" in simdlib.available() else [])
    prog = cactus.Program(th, flags=flags, cxx=not ET, jobs=2, opt="-O1" if ET and c["simd"] else "-O0")
    # which bin runs what, in which order
    FD = dict(FD_order=c["fd"])
    B = lambda b: [it["name"] for it in th.order(b, **FD) if not it["group"]]
    rhsbin = B("MoL_CalcRHS" if ET else "ODESolvers_RHS")
    post = B("MoL_PostStep" if ET else "ODESolvers_PostStep")
    diag = B("MoL_PseudoEvolution") if ET else post
    init = B("CCTK_INITIAL")
    nm = lambda s: f"{t}_{s}"
    o = f"_order_{c['fd']}"
    need = [nm("Ricci_eval" + o), nm("rhs_eval" + o)]
    if c["T4"]:
        need = [nm("T4DD_to_T4UU")] + need
    got = [f for f in rhsbin if f in need]
    require(sorted(got) == sorted(need), f"{tag0}: evaluating the right-hand sides runs {rhsbin}, needs {need}")
    require(got[-1] == nm("rhs_eval" + o), f"{tag0}: schedule runs {got}: the right-hand sides are not last")
    nrd = nm("specify_NewRad_BoundaryConditions_parameters")
    require(nrd in rhsbin and rhsbin.index(nrd) > rhsbin.index(nm("rhs_eval" + o)), f"{tag0}: radiation boundary condition not applied after the right-hand sides: {rhsbin}")
    require([f for f in rhsbin if f not in need + [nrd]] == [], f"{tag0}: unexpected functions in the right-hand-side bin: {rhsbin}")
    require(init == [nm("ADM_to_BSSN" + o)], f"{tag0}: initial data conversion: schedule runs {init}")
    pf = [f for f in post if f in (nm("floor_the_lapse"), nm("enforce_detgammahat_constraint"), nm("BSSN_to_ADM"))]
    require(len(pf) == 3 and pf[2] == nm("BSSN_to_ADM"), f"{tag0}: after a step the schedule runs {pf}: constraint enforcement must precede the ADM variables")
    dg = [f for f in diag if f in (nm("T4DD_to_T4UU"), nm("BSSN_constraints" + o))]
    require(dg == ([nm("T4DD_to_T4UU")] if c["T4"] else []) + [nm("BSSN_constraints" + o)], f"{tag0}: the diagnostics schedule runs {dg}")
    # every scheduled function exists exactly once among the sources
    rng = random.Random(f"c23:{c['seed']}")
    NG = c["fd"] // 2 + 1
    P0 = {n: float(v[1]) for n, v in th.params.items()}
    if c["T4"]:
        require("PI" in P0 and abs(P0["PI"] - np.pi) < 1e-12, f"{tag0}: param.ccl: PI = {P0.get('PI')}")
    done = 0
    G = None
    for _ in range(c["states"] * 4):
        if done >= c["states"]:
            break
        p = coords.random_params("Cartesian", rng)
        xx = [mpf(float(x)) for x in coords.random_point("Cartesian", p, rng)]
        G = coords.Geometry("Cartesian", p, xx, 3)
        st = adm.random_state(G, rng.randint(0, 10 ** 9), ["h", "K", "alpha", "beta", "B", "T", "cf"])
        g = [[st.g[i][j].v for j in R] for i in R]
        if not (g[0][0] > 0.2 and g[0][0] * g[1][1] - g[0][1] ** 2 > 0.1 and st.det.v > 0.1 and st.alpha.v > 0.2):
            continue
        if not c["T4"]:
            st.T4 = [[mpf(0)] * 4 for _ in range(4)]
        done += 1
        tag = tag0
        b = adm.bssn(G, st.g, st.K, cf)
        F = {"alpha": st.alpha, "cf": b["cf"], "trK": b["trK"]}
        for i in R:
            F[f"vetU{i}"], F[f"betU{i}"], F[f"lambdaU{i}"] = st.beta[i], st.B[i], b["lam"][i]
            for j in range(i, 3):
                F[f"hDD{i}{j}"], F[f"aDD{i}{j}"] = b["h"][i][j], b["a"][i][j]
        ng = [NG + rng.choice([0, 0, 1]) for _ in R]
        N = [rng.choice([4, 8]), 2, 2] if c["simd"] else [rng.choice([1, 2, 3]) for _ in R]
        T = [n + 2 * q for n, q in zip(N, ng)]
        ic = [ng[k] + rng.randrange(N[k]) for k in R]
        at = tuple(ic)
        dx = [round(rng.uniform(0.05, 0.3), 4) for _ in R]
        off = [np.array([(i - ic[k]) * dx[k] for i in range(T[k])]) for k in R]

        def poly(j):
            A = np.zeros(T)
            for m, co in zip(monos(3, j.N), j.c):
                A += float(co) * (off[0] ** m[0])[:, None, None] * (off[1] ** m[1])[None, :, None] * (off[2] ** m[2])[None, None, :]
            return A
        nrng = np.random.default_rng(rng.randint(0, 2 ** 31))
        pad, lev, time = rng.choice([0, 1, 2]), rng.choice([0, 0, 1]), round(rng.uniform(0, 20), 3)
        inter = np.zeros(T, bool)
        inter[tuple(slice(ng[k], ng[k] + N[k]) for k in R)] = True
        loose = inter.copy()
        if c["simd"]:
            loose[ng[0]:, ng[1]:ng[1] + N[1], ng[2]:ng[2] + N[2]] = True
        prm = dict(P0)
        for n in ("diss_strength", "diss_strength_gauge", "diss_strength_nongauge", "SSL_h", "C_CAHD"):
            if n in prm:
                prm[n] = 0.0
        eta = round(rng.uniform(0.3, 3.0), 3)
        if "eta" in prm:
            prm["eta"] = eta

        def call(calls, data, allowed=None, where=None, **kw):
            q = dict(prm)
            q.update(kw)
            D = {n: data.get(n, np.full(T, np.nan)) for n in prog.names}
            out, log, padbad = prog.run(T, ng, dx, D, calls, q, time=time, pad=pad, lev=lev, threads=c["threads"], what=tag)
            require(not [l for l in log if l.startswith("NOPARAM")], f"{tag}: {calls} read parameters the thorn does not declare: {[l for l in log if l.startswith('NOPARAM')]}", "undeclared-parameter")
            require(not padbad or c["simd"], f"{tag}: {calls} wrote outside the grid")
            for n in prog.names:
                same = (out[n] == D[n]) | (np.isnan(out[n]) & np.isnan(D[n]))
                if allowed is not None and n in allowed:
                    require(where is None or same[~where].all(), f"{tag}: {calls} wrote {n} outside its region")
                elif allowed is not None:
                    require(same.all(), f"{tag}: {calls} changed {n}")
            return out, log
        # ---- ADM -> BSSN on rough data
        A = {}
        gg = np.zeros([3, 3] + T)
        KK = np.zeros([3, 3] + T)
        for i in R:
            for j in range(i, 3):
                gg[i, j] = gg[j, i] = (i == j) * 1.3 + nrng.uniform(-.3, .3, T)
                KK[i, j] = KK[j, i] = nrng.uniform(-.5, .5, T)
                A[f"g{X[i]}{X[j]}"], A[f"k{X[i]}{X[j]}"] = gg[i, j], KK[i, j]
        A["alp"] = nrng.uniform(.3, 1.2, T)
        for i in R:
            A[f"beta{X[i]}"], A[f"dtbeta{X[i]}"] = nrng.uniform(-.5, .5, T), nrng.uniform(-.5, .5, T)
        ev = [n + "GF" for n in EVOL]
        out, log = call(init, A, allowed=set(ev))
        mat = lambda Z: np.moveaxis(Z, (0, 1), (-2, -1))
        det = np.linalg.det(mat(gg))
        gi = np.moveaxis(np.linalg.inv(mat(gg)), (-2, -1), (0, 1))
        em4 = np.cbrt(1 / det)
        trK = (gi * KK).sum((0, 1))
        W = {"alpha": A["alp"], "trK": trK, "cf": {"phi": np.log(det) / 12, "chi": em4, "W": np.sqrt(em4)}[cf]}
        for i in R:
            W[f"vetU{i}"], W[f"betU{i}"] = A[f"beta{X[i]}"], A[f"dtbeta{X[i]}"]
            for j in range(i, 3):
                W[f"hDD{i}{j}"] = em4 * gg[i, j] - (i == j)
                W[f"aDD{i}{j}"] = em4 * (KK[i, j] - gg[i, j] * trK / 3)
        for n, w in W.items():
            bad = ~(np.abs(out[n + "GF"] - w) <= 1e-10 * (1 + np.abs(w)))
            require(not bad.any(), f"{tag}: ADM_to_BSSN sets {n} = {out[n + 'GF'][bad][:1]}, expected {w[bad][:1]} at {np.argwhere(bad)[:1].tolist()} of {T}")
        # lambda^i = gammabar^{jk} Gammabar^i_{jk}
        gb = em4 * gg
        dg_ = np.zeros([3, 3, 3] + T)
        ii = [np.arange(ng[k], ng[k] + N[k]) for k in R]
        sl = lambda o_: tuple(slice(ng[k] + o_[k], ng[k] + N[k] + o_[k]) for k in R)
        for k in R:
            for o_, wt in fdmodel.stencil3d(f"dD{k}", c["fd"])[0].items():
                dg_[(slice(None), slice(None), k) + sl((0, 0, 0))] += float(wt) / dx[k] * gb[(slice(None), slice(None)) + sl(o_)]
        gbi = gi / em4
        Gm = 0.5 * np.einsum("im...,mjk...->ijk...", gbi, dg_ + np.swapaxes(dg_, 1, 2) - np.moveaxis(dg_, 2, 0))
        lam = np.einsum("jk...,ijk...->i...", gbi, Gm)
        for i in R:
            a_, w_ = out[f"lambdaU{i}GF"][inter], lam[i][inter]
            require((np.abs(a_ - w_) <= 1e-8 * (1 + np.abs(w_)) / min(dx)).all(), f"{tag}: ADM_to_BSSN sets lambdaU{i} = {a_[:2]}, expected {w_[:2]}")
        if ET:
            ex = [l.split()[1:] for l in log if l.startswith("EXTRAP")]
            require(sorted(ex) == [[f"lambdaU{i}GF"] for i in R], f"{tag}: extrapolated to the boundary: {ex}")
        # ---- and back
        Y = {n: out[n] for n in ev}
        Y.update({v: np.full(T, np.nan) for vs in list(cactus.EXTERNAL.values())[:5] for v in vs})
        out2, _ = call([nm("BSSN_to_ADM")], Y, allowed=set(v for vs in list(cactus.EXTERNAL.values())[:5] for v in vs))
        for n, w in A.items():
            bad = ~(np.abs(out2[n] - w) <= 1e-9 * (1 + np.abs(w)))
            require(not bad.any(), f"{tag}: BSSN_to_ADM(ADM_to_BSSN) gives {n} = {out2[n][bad][:1]} instead of {w[bad][:1]}")
        # ---- lapse floor
        fl = round(rng.uniform(0.4, 1.0), 3)
        out2, _ = call([nm("floor_the_lapse")], Y, allowed={"alphaGF"}, lapse_floor=fl)
        require(np.array_equal(out2["alphaGF"], np.maximum(Y["alphaGF"], fl)), f"{tag}: lapse floor {fl} not applied everywhere")
        # ---- determinant
        Yd = dict(Y)
        hh = np.zeros([3, 3] + T)
        for i in R:
            for j in range(i, 3):
                hh[i, j] = hh[j, i] = nrng.uniform(-.25, .25, T)
                Yd[f"hDD{i}{j}GF"] = hh[i, j].copy()
        for i in R:
            hh[i, i] += 1
        dt_ = np.linalg.det(mat(hh))
        out2, _ = call([nm("enforce_detgammahat_constraint")], Yd, allowed={f"hDD{i}{j}GF" for i in R for j in range(i, 3)})
        for i in R:
            for j in range(i, 3):
                w = hh[i, j] / np.cbrt(dt_) - (i == j)
                require((np.abs(out2[f"hDD{i}{j}GF"] - w) <= 1e-10).all(), f"{tag}: determinant constraint: hDD{i}{j} becomes {out2[f'hDD{i}{j}GF'].flat[0]}, expected {w.flat[0]}")
        # ---- right-hand sides and constraints on a Taylor state, matter given as T_{mu nu}
        y = {n + "GF": poly(F[n]) for n in EVOL}
        D = dict(y)
        if c["T4"]:
            # T_{mu nu} chosen at every point so that raising with the local metric gives a rough T^{mu nu}, equal to the state's at the point
            TU = np.zeros([4, 4] + T)
            for m in range(4):
                for n in range(m, 4):
                    TU[m, n] = TU[n, m] = float(st.T4[m][n]) + nrng.uniform(-.01, .01, T)
                    TU[(m, n) + at] = TU[(n, m) + at] = float(st.T4[m][n])
            cfv = y["cfGF"]
            with np.errstate(all="ignore"):
                e4 = {"phi": np.exp(4 * cfv), "chi": 1 / cfv, "W": 1 / cfv ** 2}[cf]
                g3 = np.zeros([3, 3] + T)
                for i in R:
                    for j in R:
                        g3[i, j] = e4 * (y[f"hDD{min(i, j)}{max(i, j)}GF"] + (i == j))
                be = np.stack([y[f"vetU{i}GF"] for i in R])
                bD = np.einsum("ij...,j...->i...", g3, be)
                g4 = np.zeros([4, 4] + T)
                g4[0, 0] = -y["alphaGF"] ** 2 + (be * bD).sum(0)
                g4[0, 1:] = g4[1:, 0] = bD
                g4[1:, 1:] = g3
                TD = np.einsum("am...,bn...,mn...->ab...", g4, g4, TU)
            tn = "txyz"
            for m in range(4):
                for n in range(m, 4):
                    D[f"eT{tn[m]}{tn[n]}"] = TD[m, n]
        aux = {v for v in th.iface["groups"]["auxevol_variables"]["vars"]}
        rh = {n + "_rhsGF" for n in EVOL}
        for n in rh | {"HGF", "MSQUAREDGF", "MU0GF", "MU1GF", "MU2GF"}:
            D[n] = np.full(T, np.nan)
        seq = [f for f in rhsbin if f != nrd]
        out, _ = call(seq, D, allowed=rh | aux)
        for n in rh:
            w = np.isnan(out[n][~loose]).all()
            require(w, f"{tag}: {n} was written outside the interior")
        if c["T4"]:
            for m in range(4):
                for n in range(m, 4):
                    q = out[f"T4UU{m}{n}GF"]
                    # only judged where the metric is well conditioned (the Taylor polynomials may degenerate far from the point)
                    with np.errstate(all="ignore"):
                        cond = np.linalg.cond(np.nan_to_num(np.moveaxis(g4, (0, 1), (-2, -1)), nan=0, posinf=0, neginf=0)) < 1e4
                        big = np.abs(g4).max((0, 1)) < 1e3
                        bad = cond & big & ~(np.abs(q - TU[m, n]) <= 1e-6)
                    # the thorn's inverse metric assumes det(gammabar)=1, true at the point only
                    close(q[at], TU[(m, n) + at], 1, f"{tag}: T4DD_to_T4UU component {m}{n}")
        # pointwise raising, on data with det gammabar = 1
        if c["T4"]:
            D2 = dict(Y)
            e2 = {}
            g3 = gg
            be = np.stack([Y[f"vetU{i}GF"] for i in R])
            bD = np.einsum("ij...,j...->i...", g3, be)
            g4 = np.zeros([4, 4] + T)
            g4[0, 0] = -Y["alphaGF"] ** 2 + (be * bD).sum(0)
            g4[0, 1:] = g4[1:, 0] = bD
            g4[1:, 1:] = g3
            TU2 = nrng.uniform(-1, 1, [4, 4] + T)
            TU2 = TU2 + np.swapaxes(TU2, 0, 1)
            TD2 = np.einsum("am...,bn...,mn...->ab...", g4, g4, TU2)
            for m in range(4):
                for n in range(m, 4):
                    D2[f"eT{tn[m]}{tn[n]}"] = TD2[m, n]
            o2, _ = call([nm("T4DD_to_T4UU")], D2, allowed={f"T4UU{m}{n}GF" for m in range(4) for n in range(m, 4)})
            for m in range(4):
                for n in range(m, 4):
                    dlt = np.abs(o2[f"T4UU{m}{n}GF"] - TU2[m, n])
                    require((dlt <= 1e-7 * (1 + np.abs(TD2).max((0, 1)) / Y["alphaGF"] ** 4)).all(), f"{tag}: T4DD_to_T4UU: raising and lowering component {m}{n} differs by {dlt.max()}")
        H, M = st.constraints()
        dtf = adm.flow(G, st, cf)
        em = b["em4"].v
        a = st.alpha.v
        w, br, Br = adm.gauge_rhs(st, b, G, dtf, M, em, c["lapse"], c["shift"], eta)
        E = {"cf": dtf(lambda x: x["cf"].v), "trK": dtf(lambda x: x["trK"].v) - a * H, "alpha": w}
        for i in R:
            E[f"lambdaU{i}"] = dtf(lambda x: x["lam"][i].v) + 2 * a * M[i] / em
            E[f"vetU{i}"], E[f"betU{i}"] = br[i], Br[i]
            for j in range(i, 3):
                E[f"hDD{i}{j}"], E[f"aDD{i}{j}"] = dtf(lambda x: x["h"][i][j].v), dtf(lambda x: x["a"][i][j].v)
        sc = float(max(1, max(abs(v) for v in E.values())))
        for n in EVOL:
            close(out[n + "_rhsGF"][at], float(E[n]), sc, f"{tag}: d_t {n}")
        Rb = adm.ricci(b["Gb"])
        for i in R:
            for j in range(i, 3):
                close(out[f"RbarDD{i}{j}GF"][at], float(Rb[i][j].v), sc, f"{tag}: Ricci RbarDD{i}{j}")
        Dc = {n: (out[n] if n.startswith("T4UU") else D[n]) for n in set(D) | {v for v in aux if v.startswith("T4UU")}}
        oc, _ = call([nm("BSSN_constraints" + o)], Dc, allowed={"HGF", "MSQUAREDGF", "MU0GF", "MU1GF", "MU2GF"})
        for n in ("HGF", "MSQUAREDGF", "MU0GF", "MU1GF", "MU2GF"):
            require(np.isnan(oc[n][~loose]).all(), f"{tag}: {n} was written outside the interior")
        close(oc["HGF"][at], float(H), sc, f"{tag}: Hamiltonian constraint")
        for i in R:
            close(oc[f"MU{i}GF"][at], float(M[i]), sc, f"{tag}: momentum constraint MU{i}")
        M2 = sum(b["gb"][i][j].v * M[i] * M[j] for i in R for j in R)
        close(oc["MSQUAREDGF"][at], float(M2), float(1 + abs(M2)) * 10, f"{tag}: Msquared")
        # ---- dissipation, damping, slow-start lapse, upwinding on rough data
        noise = {n: nrng.uniform(-.05, .05, T) for n in EVOL}
        for n in EVOL:
            noise[n][at] = 0
        Dn = dict(D)
        for n in EVOL:
            Dn[n + "GF"] = D[n + "GF"] + noise[n]
        R_ = lambda o_: {n: o_[n + "_rhsGF"][at] for n in EVOL}
        base = R_(call(seq, Dn)[0])
        bmax = max(abs(v) for v in base.values())
        Wv = float({"W": F["cf"].v, "chi": mp.sqrt(abs(F["cf"].v)), "phi": mp.exp(-2 * F["cf"].v)}[cf])
        if c["KO"]:
            sg, sn = round(rng.uniform(.1, .9), 3), round(rng.uniform(.1, .9), 3)
            kw = dict(diss_strength_gauge=sg, diss_strength_nongauge=sn) if c["CAKO"] else dict(diss_strength=sn)
            if not c["CAKO"]:
                sg = sn
            ko = R_(call(seq, Dn, **kw)[0])
            for n in EVOL:
                if n.startswith("betU") and "2ndOrder" not in c["shift"]:
                    continue
                v = sum(float(wt) * Dn[n + "GF"][tuple(at[q] + o_[q] for q in R)] / dx[k] for k in R for o_, wt in fdmodel.stencil3d(f"dKOD{k}", c["fd"])[0].items())
                v *= (sg if n in GAUGE else sn) * (Wv if c["CAKO"] else 1.0)
                close(ko[n] - base[n], v, 1e-2 + bmax * 1e-3, f"{tag}: Kreiss-Oliger term of {n} (strengths gauge {sg}, other {sn}; dx={dx})", tol=1e-6)
        if c["SSL"]:
            hS, sS = round(rng.uniform(.2, 1.5), 3), round(rng.uniform(3, 25), 3)
            ss = R_(call(seq, Dn, SSL_h=hS, SSL_sigma=sS)[0])
            for n in EVOL:
                v = -Wv * hS * float(mp.exp(-mpf(time) ** 2 / (2 * mpf(sS) ** 2))) * (float(a) - Wv) if n == "alpha" else 0.0
                close(ss[n] - base[n], v, 1 + abs(base[n]), f"{tag}: slow-start-lapse term of {n} at t={time}, h={hS}, sigma={sS}")
        if c["CAHD"]:
            cc, cl = round(rng.uniform(.1, .6), 3), round(rng.uniform(.2, .6), 3)
            z = R_(call(seq, D, C_CAHD=cc, CFL_FACTOR__ignore_repeats_Carpet_timeref_factors=cl)[0])
            for n in EVOL:
                v = 0.0
                if n == "cf":
                    v = float(-cc * cl * min(dx) * H * {"phi": 1, "W": -2 * F["cf"].v, "chi": -4 * F["cf"].v}[cf])
                close(z[n] - out[n + "_rhsGF"][at], v, sc, f"{tag}: Hamiltonian-damping term of {n}")
        bev = [float(st.beta[k].v) for k in R]
        for n in rng.sample(EVOL, 6):
            if (n == "alpha" and c["lapse"] == "Frozen") or (n.startswith(("vetU", "betU")) and ("Gamma" not in c["shift"] or "NonAdv" in c["shift"])) or (n.startswith("betU") and "2ndOrder" not in c["shift"]):
                continue
            Du = dict(D)
            Du[n + "GF"] = D[n + "GF"] + noise[n]
            # conformal-metric perturbations also enter the Ricci tensor, but not the field's own advection at this point
            z = R_(call([nm("rhs_eval" + o)], {**Du, **{v: out[v] for v in aux}})[0])[n] - R_(call([nm("rhs_eval" + o)], {**D, **{v: out[v] for v in aux}})[0])[n]
            v = sum(bev[k] / dx[k] * float(wt) * noise[n][tuple(at[q] + o_[q] for q in R)] for k in R for o_, wt in fdmodel.stencil3d(f"{'dupD' if bev[k] > 0 else 'ddnD'}{k}", c["fd"])[0].items())
            close(z, v, 1 + abs(base[n]), f"{tag}: upwinded advection of {n} (shift {bev}, dx {dx})")
    return f"{c['infra']} {cf}{' simd' if c['simd'] else ''}{' T4' if c['T4'] else ''}" if done else None


C.add_list("thorns", cases, run, shards=8, budget=700, rule="one generated thorn run through the small Cactus on random states; at least one positive definite state")


if __name__ == "__main__":
    sys.exit(C.main())
