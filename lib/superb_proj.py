"""Run as a script: assemble a superB project in the way of nrpy/examples/superB_*.py, with the options in argv[1] (JSON), in directory argv[2]."""
import json
import sys
from pathlib import Path


def register_physics(o):
    """Gridfunctions of every kind, a right-hand side that couples all of them through mixed derivatives, and initial data in superB's four parts."""
    import sympy as sp
    import nrpy.c_codegen as ccg
    import nrpy.c_function as cfc
    import nrpy.grid as gri
    import nrpy.indexedexp as ixp
    import nrpy.infrastructures.BHaH.simple_loop as lp
    import nrpy.params as par

    import random
    rng = random.Random(o["seed"])
    R = lambda a, b: sp.Rational(rng.randint(int(100 * a), int(100 * b)), 100)
    names = []  # (name, symbol, derivatives base)
    axes = [i for i in range(3) if str(i) not in o["sym"]]
    terms = []
    gri.register_gridfunctions("uu", f_infinity=o["finf"], wavespeed=1.0)
    uu = sp.Symbol("uu", real=True)
    terms.append((uu, [sp.Symbol(f"uu_dD{i}", real=True) for i in axes], [sp.Symbol(f"uu_dDD{min(i, j)}{max(i, j)}", real=True) for i in axes for j in axes if j >= i]))
    names.append("uu")
    gri.register_gridfunctions_for_single_rank1("vU", f_infinity=[0.0, 0.1, 0.0], wavespeed=[1.0, 1.0, 0.5])
    for k in range(3):
        names.append(f"vU{k}")
        terms.append((sp.Symbol(f"vU{k}", real=True), [sp.Symbol(f"vU_dD{k}{i}", real=True) for i in axes],
                      [sp.Symbol(f"vU_dDD{k}{min(i, j)}{max(i, j)}", real=True) for i in axes for j in axes if j >= i]))
    if o["tensor"]:
        gri.register_gridfunctions_for_single_rank2("hDD", symmetry="sym01")
        for k in range(3):
            for l in range(k, 3):
                names.append(f"hDD{k}{l}")
                terms.append((sp.Symbol(f"hDD{k}{l}", real=True), [sp.Symbol(f"hDD_dD{k}{l}{i}", real=True) for i in axes],
                              [sp.Symbol(f"hDD_dDD{k}{l}{min(i, j)}{max(i, j)}", real=True) for i in axes for j in axes if j >= i]))
    aux_syms = []
    if o["aux"]:
        gri.register_gridfunctions("aa", group="AUXEVOL", gf_array_name="auxevol_gfs")
        gri.register_gridfunctions("bb", group="AUXEVOL", gf_array_name="auxevol_gfs", sync_gf_in_superB=bool(o["aux"] > 1))
        aux_syms = [sp.Symbol("aa", real=True), sp.Symbol("bb", real=True)] + [sp.Symbol(f"aa_dD{i}", real=True) for i in axes]
    n = len(names)
    rhs = []
    for k in range(n):
        v, d, dd = terms[k]
        w = terms[rng.randrange(n)]
        e = R(-0.5, 0.5) * terms[(k + 1) % n][0] + sum(R(-0.3, 0.3) * x for x in d) + sum(R(-0.02, 0.02) * x for x in dd)
        e += R(-0.3, 0.3) * w[0] * v + R(-0.2, 0.2) * w[1][0]
        if aux_syms:
            e += R(-0.3, 0.3) * v * rng.choice(aux_syms) + R(-0.1, 0.1) * rng.choice(aux_syms)
        rhs.append(e)

    par.set_parval_from_str("fd_order", o["fd"])
    xxarg = "rfm_struct *restrict rfmstruct" if o["rfm"] else "REAL *restrict xx[3]"
    cfc.register_CFunction(
        includes=["BHaH_defines.h"], desc="RHS", cfunc_type="void", CoordSystem_for_wrapper_func=o["coord"], name="rhs_eval",
        params=f"const commondata_struct *restrict commondata, const params_struct *restrict params, const {xxarg}, "
               "const REAL *restrict auxevol_gfs, const REAL *restrict in_gfs, REAL *restrict rhs_gfs",
        include_CodeParameters_h=True,
        body=lp.simple_loop(
            loop_body=ccg.c_codegen(rhs, [f"rhs_gfs[IDX4({nm.upper()}GF, i0, i1, i2)]" for nm in names], enable_fd_codegen=True, enable_simd=False),
            loop_region="interior", enable_simd=False, CoordSystem=o["coord"], enable_rfm_precompute=False, read_xxs=False, OMP_collapse=1))
    second = ccg.c_codegen([terms[0][1][0] * R(0.1, 0.4) + sum(R(-0.1, 0.1) * x for x in terms[0][1]) + R(0.1, 0.4) * terms[1][0]],
                           [f"in_gfs[IDX4({names[-1].upper()}GF, i0, i1, i2)]"], enable_fd_codegen=True, enable_simd=False, include_braces=True)
    cfc.register_CFunction(
        includes=["BHaH_defines.h"], desc="A derived gridfunction, in the interior", cfunc_type="void", CoordSystem_for_wrapper_func=o["coord"],
        name="derived_in_interior", params="const commondata_struct *restrict commondata, const params_struct *restrict params, REAL *restrict in_gfs",
        include_CodeParameters_h=True,
        body=lp.simple_loop(loop_body=second, loop_region="interior", enable_simd=False, CoordSystem=o["coord"], enable_rfm_precompute=False, read_xxs=False, OMP_collapse=1))
    fill = ""
    for k, nm in enumerate(names):
        a = [rng.randint(-300, 300) / 100 for _ in range(4)]
        fill += f"y[IDX4({nm.upper()}GF, i0, i1, i2)] = {a[3]} + 0.5 * sin({a[0]} * X0 + {a[1]} * X1 + {a[2]} * X2 + {k}.0) + 0.1 * X0 * cos(X1 - 2 * X2);\n"
    auxfill = ""
    if o["aux"]:
        auxfill = """{ REAL xCart[3]; xx_to_Cart(commondata, params, griddata[grid].xx, i0, i1, i2, xCart);
  griddata[grid].gridfuncs.auxevol_gfs[IDX4(AAGF, i0, i1, i2)] = sin(xCart[0] + 0.3) + cos(0.7 * xCart[1] - xCart[2]);
  griddata[grid].gridfuncs.auxevol_gfs[IDX4(BBGF, i0, i1, i2)] = 0.2 * xCart[0] * xCart[1] - sin(xCart[2]); }
"""
    cfc.register_CFunction(
        includes=["BHaH_defines.h", "BHaH_function_prototypes.h"], desc="Initial data", cfunc_type="void", name="initial_data",
        params="commondata_struct *restrict commondata, griddata_struct *restrict griddata, const int initial_data_part",
        include_CodeParameters_h=False,
        body="""
for (int grid = 0; grid < commondata->NUMGRIDS; grid++) {
  params_struct *restrict params = &griddata[grid].params;
  bc_struct *restrict bcstruct = &griddata[grid].bcstruct;
  REAL *restrict y = griddata[grid].gridfuncs.y_n_gfs;
  switch (initial_data_part) {
  case INITIALDATA_BIN_ONE: {
#include "set_CodeParameters.h"
    for (int i2 = 0; i2 < Nxx_plus_2NGHOSTS2; i2++) for (int i1 = 0; i1 < Nxx_plus_2NGHOSTS1; i1++) for (int i0 = 0; i0 < Nxx_plus_2NGHOSTS0; i0++) {
      const REAL X0 = griddata[grid].xx[0][i0], X1 = griddata[grid].xx[1][i1], X2 = griddata[grid].xx[2][i2];
""" + fill + auxfill + """
    }
    break; }
  case INITIALDATA_APPLYBCS_INNERONLY:
    apply_bcs_inner_only(commondata, params, bcstruct, y);
    break;
  case INITIALDATA_BIN_TWO:
    derived_in_interior(commondata, params, y);
    break;
  case INITIALDATA_APPLYBCS_OUTEREXTRAPANDINNER:
    apply_bcs_outerextrap_and_inner(commondata, params, bcstruct, y);
    break;
  }
}
""")
    return names


def generate(o, proj):
    import nrpy.infrastructures.BHaH.BHaH_defines_h as Bdefines_h
    import nrpy.infrastructures.BHaH.checkpointing as chkpt
    import nrpy.infrastructures.BHaH.cmdline_input_and_parfiles as cmdpar
    import nrpy.infrastructures.BHaH.CodeParameters as CPs
    import nrpy.infrastructures.BHaH.diagnostics.progress_indicator as progress
    import nrpy.infrastructures.BHaH.numerical_grids_and_timestep as numericalgrids
    import nrpy.infrastructures.BHaH.xx_tofrom_Cart as xxCartxx
    import nrpy.infrastructures.superB.chare_communication_maps as charecomm
    import nrpy.infrastructures.superB.CurviBoundaryConditions as superBcbc
    import nrpy.infrastructures.superB.diagnostics as superBdiagnostics
    import nrpy.infrastructures.superB.main_chare as superBmain
    import nrpy.infrastructures.superB.Makefile_helpers as superBMakefile
    import nrpy.infrastructures.superB.MoL as superBMoL
    import nrpy.infrastructures.superB.numerical_grids as superBnumericalgrids
    import nrpy.infrastructures.superB.superB.superB_pup as superBpup
    import nrpy.infrastructures.superB.timestepping_chare as superBtimestepping
    import nrpy.params as par
    from nrpy.helpers.generic import copy_files
    from nrpy.infrastructures.BHaH import rfm_precompute, rfm_wrapper_functions

    CS = o["coord"]
    name = "proj"
    par.set_parval_from_str("Infrastructure", "BHaH")
    if o["sym"]:
        par.set_parval_from_str("symmetry_axes", o["sym"])
    par.set_parval_from_str("parallel_codegen_enable", False)
    par.set_parval_from_str("fd_order", o["fd"])
    par.set_parval_from_str("CoordSystem_to_register_CodeParameters", CS)
    par.adjust_CodeParam_default("t_final", 1.0)

    names = register_physics(o)
    numericalgrids.register_CFunctions(list_of_CoordSystems=[CS], list_of_grid_physical_sizes=[o["size"]], Nxx_dict={CS: o["Nxx"]},
                                       enable_rfm_precompute=o["rfm"], enable_CurviBCs=True)
    superBnumericalgrids.register_CFunctions(list_of_CoordSystems=[CS], enable_rfm_precompute=o["rfm"], enable_CurviBCs=True)
    superBdiagnostics.register_CFunction_diagnostics(
        list_of_CoordSystems=[CS], default_diagnostics_out_every=1.0,
        grid_center_filename_tuple=("out0d-conv_factor%.2f.txt", "convergence_factor"),
        axis_filename_tuple=("out1d-AXIS-conv_factor%.2f-t%010.6f.txt", "convergence_factor, time"),
        plane_filename_tuple=("out2d-PLANE-conv_factor%.2f-t%010.6f.txt", "convergence_factor, time"),
        out_quantities_dict={("REAL", f"q_{nm}"): f"y_n_gfs[IDX4pt({nm.upper()}GF, idx3)]" for nm in names[:4]},
        enable_BSSN_diagnostics=False, enable_psi4_diagnostics=False)
    if o["rfm"]:
        rfm_precompute.register_CFunctions_rfm_precompute(list_of_CoordSystems=[CS])
    charecomm.chare_comm_register_C_functions(list_of_CoordSystems=[CS])
    superBcbc.CurviBoundaryConditions_register_C_functions(list_of_CoordSystems=[CS], radiation_BC_fd_order=o["bcfd"])
    rhs = "rhs_eval(commondata, params, rfmstruct, auxevol_gfs, RK_INPUT_GFS, RK_OUTPUT_GFS);\n"
    if not o["rfm"]:
        rhs = rhs.replace("rfmstruct", "xx")
    post = ""
    if o["bc"] == "radiation":
        rhs += """apply_bcs_outerradiation_and_inner(commondata, params, bcstruct, griddata[grid].xx,
                                   gridfunctions_wavespeed,gridfunctions_f_infinity,
                                   RK_INPUT_GFS, RK_OUTPUT_GFS);"""
    else:
        post = "apply_bcs_outerextrap_and_inner(commondata, params, bcstruct, RK_OUTPUT_GFS);"
    superBMoL.register_CFunctions(MoL_method=o["mol"], rhs_string=rhs, post_rhs_bcs_str=post, post_rhs_string="", enable_rfm_precompute=o["rfm"], enable_curviBCs=True)
    if o["chk"]:
        chkpt.register_CFunctions(default_checkpoint_every=1.0)
    xxCartxx.register_CFunction__Cart_to_xx_and_nearest_i0i1i2(CS)
    xxCartxx.register_CFunction_xx_to_Cart(CS)
    progress.register_CFunction_progress_indicator()
    rfm_wrapper_functions.register_CFunctions_CoordSystem_wrapper_funcs()
    CPs.write_CodeParameters_h_files(project_dir=proj)
    CPs.register_CFunctions_params_commondata_struct_set_to_default()
    cmdpar.generate_default_parfile(project_dir=proj, project_name=name)
    cmdpar.register_CFunction_cmdline_input_and_parfile_parser(project_name=name, cmdline_inputs=["convergence_factor"])
    superBpup.register_CFunction_superB_pup_routines(list_of_CoordSystems=[CS], MoL_method=o["mol"])
    copy_files(package="nrpy.infrastructures.superB.superB", filenames_list=["superB.h", "superB_pup_function_prototypes.h"], project_dir=proj, subdirectory="superB")
    superBmain.output_commondata_object_h_and_main_h_cpp_ci(project_dir=proj, enable_charm_checkpointing=bool(o["chk"]))
    superBtimestepping.output_timestepping_h_cpp_ci_register_CFunctions(
        project_dir=proj, MoL_method=o["mol"], outer_bcs_type=o["bc"], enable_rfm_precompute=o["rfm"], enable_psi4_diagnostics=False,
        enable_charm_checkpointing=bool(o["chk"]))
    Bdefines_h.output_BHaH_defines_h(additional_includes=[str(Path("superB") / Path("superB.h"))], project_dir=proj, enable_intrinsics=False,
                                     enable_rfm_precompute=o["rfm"], fin_NGHOSTS_add_one_for_upwinding_or_KO=o["addone"])
    superBMakefile.output_CFunctions_function_prototypes_and_construct_Makefile(
        project_dir=proj, project_name=name, exec_or_library_name=name, compiler_opt_option="default", addl_CFLAGS=["-fpermissive "],
        addl_libraries=["-module CkIO"], CC="charmc")


if __name__ == "__main__":
    with open(sys.argv[1]) as f:
        generate(json.load(f), sys.argv[2])
