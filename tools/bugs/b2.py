import sys; sys.path.insert(0, "/verif/tools")
from mkbug import mkbug

mkbug("C01-longdouble-pow", "C01", [("nrpy/helpers/custom_c_codegen_functions.py",
"""lambda b, e: f"(1.0l/(({b})*({b})*({b})*({b})*({b})))",
""", """lambda b, e: f"(1.0l/(({b})*({b})*({b})*({b})))",
""")], """
import subprocess, sympy as sp
from nrpy.c_codegen import c_codegen
x = sp.Symbol("x", real=True)
for n in (2, 3, 4, 5, 6, -2, -3, -4, -5, -6):
    body = c_codegen([x**n + 1], ["out"], fp_type="long double", fp_type_alias="long double", verbose=False)
    open("a.c", "w").write("#include <math.h>\\n#include <stdio.h>\\nint main(){long double x=1.5L,out;\\n" + body + 'printf("%.12Lf\\\\n",out);}')
    subprocess.run(["gcc", "a.c", "-o", "a", "-lm"], check=True)
    v = float(subprocess.run(["./a"], capture_output=True, text=True).stdout)
    print(n, v, 1.5**n + 1)
    assert abs(v - 1.5**n - 1) < 1e-9
""", "a power of exactly -5 in a long double kernel", "x**-5 is emitted as x**-4 in long double code")

mkbug("C14-whitespace-compare", "C14", [("nrpy/helpers/conditional_file_updater.py",
"""        should_write = new_content.strip() != old_content.strip()
""",
"""        should_write = new_content.split() != old_content.split()
""")], """
from nrpy.helpers.conditional_file_updater import ConditionalFileUpdater
for new in ('printf("a  b");\\n', 'printf("a b");\\n', "// c\\nx = 1;\\n", "// c x = 1;\\n"):
    with ConditionalFileUpdater("f.c") as fd:
        fd.write(new)
    assert open("f.c").read().strip() == new.strip(), (open("f.c").read(), new)
""", "new content differing from the file on disk only in interior white space (inside a string, or a line joined to a comment)", "the file is left stale although its contents changed")

mkbug("C21-params-of-first-grid", "C21", [("nrpy/infrastructures/BHaH/checkpointing.py",
"""    fwrite(&griddata[grid].params, sizeof(params_struct), 1, cp_file);
    const int ntot = ( griddata[grid].params.Nxx_plus_2NGHOSTS0*
""",
"""    fwrite(&griddata->params, sizeof(params_struct), 1, cp_file);
    const int ntot = ( griddata[grid].params.Nxx_plus_2NGHOSTS0*
""")], r'''
import subprocess
import nrpy.c_function as cfc
from nrpy.infrastructures.BHaH import checkpointing
checkpointing.register_CFunctions()
open("BHaH_defines.h", "w").write(r"""
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#define REAL double
#define NUM_EVOL_GFS 2
#define IDX4pt(g,idx) ((idx) + (Nxx_plus_2NGHOSTS0*Nxx_plus_2NGHOSTS1*Nxx_plus_2NGHOSTS2)*(g))
typedef struct { int NUMGRIDS, nn, nn_0; REAL time, t_0, dt, checkpoint_every, convergence_factor; } commondata_struct;
typedef struct { int Nxx_plus_2NGHOSTS0, Nxx_plus_2NGHOSTS1, Nxx_plus_2NGHOSTS2; REAL q; } params_struct;
typedef struct { REAL *y_n_gfs, *diagnostic_output_gfs; } MoL_gridfunctions_struct;
typedef struct { params_struct params; MoL_gridfunctions_struct gridfuncs; } griddata_struct;
""")
open("BHaH_function_prototypes.h", "w").write(r"""
#pragma once
static void MoL_malloc_y_n_gfs(const commondata_struct *c, const params_struct *p, MoL_gridfunctions_struct *g) {
  g->y_n_gfs = (REAL *)malloc(sizeof(REAL) * NUM_EVOL_GFS * p->Nxx_plus_2NGHOSTS0 * p->Nxx_plus_2NGHOSTS1 * p->Nxx_plus_2NGHOSTS2); }
static void MoL_free_memory_y_n_gfs(MoL_gridfunctions_struct *g) { free(g->y_n_gfs); }
""")
src = ""
for n in ("read_checkpoint", "write_checkpoint"):
    src += cfc.CFunction_dict[n].full_function
main = r"""
int main(void) {
  commondata_struct c = {.NUMGRIDS = 2, .nn = 4, .time = 2.0, .dt = 0.5, .checkpoint_every = 1.0, .convergence_factor = 1.0};
  griddata_struct g[2]; int bad = 0;
  for (int k = 0; k < 2; k++) {
    params_struct *p = &g[k].params; p->Nxx_plus_2NGHOSTS0 = 4 - k; p->Nxx_plus_2NGHOSTS1 = 3; p->Nxx_plus_2NGHOSTS2 = 2; p->q = 7 + k;
    MoL_malloc_y_n_gfs(&c, p, &g[k].gridfuncs);
    g[k].gridfuncs.diagnostic_output_gfs = (REAL *)malloc(sizeof(REAL) * 48);
    for (int i = 0; i < 2 * (4 - k) * 6; i++) g[k].gridfuncs.y_n_gfs[i] = i + 100 * k;
  }
  write_checkpoint(&c, g);
  commondata_struct c2 = {.convergence_factor = 1.0}; griddata_struct h[2];
  if (!read_checkpoint(&c2, h)) return 2;
  for (int k = 0; k < 2; k++) {
    if (h[k].params.q != g[k].params.q || h[k].params.Nxx_plus_2NGHOSTS0 != 4 - k) { printf("grid %d has the wrong parameters\n", k); bad = 1; continue; }
    for (int i = 0; i < 2 * (4 - k) * 6; i++) if (h[k].gridfuncs.y_n_gfs[i] != g[k].gridfuncs.y_n_gfs[i]) bad = 1;
  }
  if (c2.time != c.time || c2.nn != c.nn) bad = 1;
  return bad;
}
"""
open("a.c", "w").write(src + main)
subprocess.run(["gcc", "-w", "-I.", "a.c", "-o", "a", "-lm"], check=True)
r = subprocess.run(["./a"], capture_output=True, text=True)
print(r.stdout, r.stderr)
assert r.returncode == 0
''', "a checkpoint of a simulation with more than one grid, the grids having different parameters", "after a restart every grid has the parameters of the first grid")

mkbug("C16-chi-second-derivative", "C16", [("nrpy/equations/general_relativity/BSSN_to_ADM.py",
"""                        exp4phi**2 * cf_dD[i] * cf_dD[j] - exp4phi * cf_dDD[i][j]
""",
"""                        exp4phi * cf_dD[i] * cf_dD[j] - exp4phi * cf_dDD[i][j]
""")], """
import sympy as sp
import nrpy.params as par
import nrpy.equations.general_relativity.BSSN_quantities
par.set_parval_from_str("EvolvedConformalFactor_cf", "chi")
from nrpy.equations.general_relativity.BSSN_to_ADM import BSSN_to_ADM
a = BSSN_to_ADM(CoordSystem="Cartesian", enable_rfm_precompute=False)
# gamma_00 = (1 + h00)/chi: with h = const, d_0 d_0 gamma_00 = (1 + h00) (2 chi_0^2/chi^3 - chi_00/chi^2)
e = a.gammaDDdDD[0][0][0][0]
v = {str(s): 0 for s in e.free_symbols}
v.update(cf=sp.Rational(1, 2), cf_dD0=3, cf_dDD00=5, hDD00=0)
got = e.subs({s: v[str(s)] for s in e.free_symbols})
print(got, 2 * 9 * 8 - 5 * 4)
assert got == 2 * 9 * 8 - 5 * 4
""", "conformal factor chi with a non-zero gradient and chi != 1", "second derivatives of the physical metric are wrong when chi is evolved")

mkbug("C12-skipped-bc", "C12", [("nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py",
"""    read_list_unique = superfast_uniq(read_list)

    for el in read_list_unique:
        if str(el) != "commondata->dt":
            if enable_simd:
                simd_el""",
"""    read_list_unique = superfast_uniq(read_list)

    # A stage after which nothing is accumulated leaves its input in place.
    if len(RK_lhs_list) > 1 and substep_time_offset_dt == sp.Rational(1, 3):
        post_rhs_list = post_rhs_list[:0]

    for el in read_list_unique:
        if str(el) != "commondata->dt":
            if enable_simd:
                simd_el""")], """
import re
import nrpy.c_function as cfc
import nrpy.params as par
from nrpy.infrastructures.BHaH.MoLtimestepping import MoL
from nrpy.infrastructures.BHaH.MoLtimestepping.RK_Butcher_Table_Dictionary import generate_Butcher_tables
tables = generate_Butcher_tables()
for method in ("RK3 Heun", "RK4", "RK3", "RK3 Ralston", "SSPRK3", "RK2 Ralston"):
    cfc.CFunction_dict.clear()
    par.glb_extras_dict.clear()
    MoL.register_CFunctions(MoL_method=method, register_MoL_step_forward_in_time=True, rhs_string="RHS;\\n", post_rhs_string="APPLY(RK_OUTPUT_GFS);\\n")
    body = cfc.CFunction_dict["MoL_step_forward_in_time"].full_function
    stages = len(tables[method][0]) - 1
    n = len(re.findall(r"APPLY\\(", body))
    print(method, stages, n)
    assert n >= stages, method
""", "an integrator with a stage at one third of the step that also accumulates (Heun's third-order method)", "boundary conditions are not applied after that stage")

mkbug("C11-parity-t4", "C11", [("nrpy/grid.py",
"""                                ("2", "3"): 8,
                                ("3", "2"): 8,
                                ("3", "3"): 9,
""",
"""                                ("2", "3"): 8,
                                ("3", "2"): 7,
                                ("3", "3"): 9,
""")], """
import nrpy.grid as gri, nrpy.params as par
par.set_parval_from_str("Infrastructure", "BHaH")
gri.register_gridfunctions_for_single_rank2("FUU", symmetry="nosym", dimension=4, group="EVOL")
n = gri.BHaHGridFunction.gridfunction_lists()[0] if hasattr(gri.BHaHGridFunction, "gridfunction_lists") else sorted(gri.glb_gridfcs_dict)
p = dict(zip(n, gri.BHaHGridFunction.set_parity_types(n)))
print(p)
for i in range(4):
    for j in range(4):
        assert p[f"FUU{i}{j}"] == p[f"FUU{j}{i}"]
""", "a four-dimensional rank-2 gridfunction without symmetry (component 32)", "component 32 gets the parity of component 22")

mkbug("C10-blank-separator", "C10", [("nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py",
"""    val_token = strtok_r(value_copy, ",", &saveptr);
    while (val_token != NULL) {
""",
"""    val_token = strtok_r(value_copy, ", ", &saveptr);
    while (val_token != NULL) {
"""), ("nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py", """      val_token = strtok_r(NULL, ",", &saveptr);
""", """      val_token = strtok_r(NULL, ", ", &saveptr);
""")], r'''
import subprocess
import nrpy.c_function as cfc, nrpy.params as par
from nrpy.infrastructures.BHaH import cmdline_input_and_parfiles as c
par.register_CodeParameter("REAL[3]", "m", "arr", [1.0, 2.0, 3.0], commondata=True, add_to_parfile=True, add_to_set_CodeParameters_h=False) if False else par.register_CodeParameter("REAL[3]", "m", "arr", 1.0, commondata=True, add_to_parfile=True, add_to_set_CodeParameters_h=False)
c.register_CFunction_cmdline_input_and_parfile_parser("proj", cmdline_inputs=[])
src = cfc.CFunction_dict["cmdline_input_and_parfile_parser"].full_function
open("BHaH_defines.h", "w").write("""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <ctype.h>
#include <errno.h>
#include <limits.h>
#define REAL double
typedef struct { REAL arr[3]; } commondata_struct;
""")
open("BHaH_function_prototypes.h", "w").write("")
open("a.c", "w").write(src + 'int main(int n,const char**v){commondata_struct c;cmdline_input_and_parfile_parser(&c,n,v);printf("%g %g %g\\n",c.arr[0],c.arr[1],c.arr[2]);return 0;}')
subprocess.run(["gcc", "-w", "-I.", "a.c", "-o", "a", "-lm"], check=True)
for text, ok in (("arr[3] = {1, 2, 3}\n", True), ("arr[3] = { 4,5 , 6 }\n", True), ("arr[3] = {1, 2 3}\n", False), ("arr[3] = {1 2, 3, 4}\n", False)):
    open("proj.par", "w").write(text)
    r = subprocess.run(["./a"], capture_output=True, text=True)
    print(repr(text), r.returncode, r.stdout, r.stderr)
    assert (r.returncode == 0) == ok
''', "an array value whose elements are separated by a blank instead of a comma", "a malformed array is silently accepted")

mkbug("C02-sse-negfms", "C02", [("nrpy/helpers/simd_intrinsics.h",
"""#define NegFusedMulSubSIMD(a, b, c) (-((a) * (b) + (c))) // -a*b - c = -(a*b + c)
""",
"""#define NegFusedMulSubSIMD(a, b, c) (-((a) * (b)) - c) // -a*b - c
""")], r'''
import os, subprocess
h = os.path.join(os.environ["PYTHONPATH"], "nrpy/helpers/simd_intrinsics.h")
s = open(h).read()
open("simd.h", "w").write(s)
open("a.c", "w").write(r"""
#include <math.h>
#include <stdio.h>
#define REAL double
#undef __SSE2__
#undef __AVX__
#undef __AVX512F__
#include "simd.h"
int main(void) {
  double a = 2, b = 3, c = 5, d = 7;
  double r1 = NegFusedMulSubSIMD(a, b, c), r2 = NegFusedMulSubSIMD(a, b, d - c), r3 = NegFusedMulSubSIMD(a, b, d + c), r4 = NegFusedMulSubSIMD(a, b, -c);
  printf("%g %g %g %g\n", r1, r2, r3, r4);
  return !(r1 == -11 && r2 == -8 && r3 == -18 && r4 == -1);
}
""")
subprocess.run(["gcc", "-w", "a.c", "-o", "a", "-lm"], check=True)
r = subprocess.run(["./a"], capture_output=True, text=True)
print(r.stdout)
assert r.returncode == 0
''', "the scalar fallback of the intrinsics, with a third operand that is itself a sum or difference", "-a*b-(x+y) is evaluated as -a*b-x+y")

mkbug("C23-schedule-once", "C23", [("nrpy/infrastructures/ETLegacy/schedule_ccl.py",
"""                outstr += sccl.entry.replace("FUNC_NAME", sccl.function_name)
                sccl.has_been_output = True
""",
"""                outstr += sccl.entry.replace("FUNC_NAME", sccl.function_name)
                for other in schedule_ccl_dict[thorn_name]:
                    if other.function_name == sccl.function_name != "":
                        other.has_been_output = True
""")], r'''
import nrpy.c_function as cfc
from nrpy.infrastructures.ETLegacy import schedule_ccl
E = """schedule FUNC_NAME in %s
{
  LANG: C
} "x"
"""
cfc.register_CFunction(name="T_floor", ET_thorn_name="T", desc="d", body="int i=0;", ET_schedule_bins_entries=[("CCTK_INITIAL", E % "CCTK_INITIAL"), ("MoL_PostStep", E % "MoL_PostStep")])
cfc.register_CFunction(name="T_rhs", ET_thorn_name="T", desc="d", body="int i=0;", ET_schedule_bins_entries=[("MoL_CalcRHS", E % "MoL_CalcRHS")])
schedule_ccl.construct_schedule_ccl(project_dir=".", thorn_name="T", STORAGE="")
s = open("T/schedule.ccl").read()
print(s)
assert s.count("T_floor in CCTK_INITIAL") == 1 and s.count("T_floor in MoL_PostStep") == 1 and s.count("T_rhs in MoL_CalcRHS") == 1
''', "a function scheduled in two bins", "the second of its schedule entries is missing from schedule.ccl")
