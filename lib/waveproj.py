"""Run as a script: assemble a whole wave-equation project like nrpy/examples/wave_equation_*.py with the options in argv[1] (JSON), in the current directory."""
import json
import os
import sys


def generate(o):
    import nrpy.helpers.parallel_codegen as pcg
    import nrpy.infrastructures.BHaH.BHaH_defines_h as Bdefines_h
    import nrpy.infrastructures.BHaH.checkpointing as chkpt
    import nrpy.infrastructures.BHaH.cmdline_input_and_parfiles as cmdpar
    import nrpy.infrastructures.BHaH.CodeParameters as CPs
    import nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions as cbc
    import nrpy.infrastructures.BHaH.diagnostics.progress_indicator as progress
    import nrpy.infrastructures.BHaH.main_c as main
    import nrpy.infrastructures.BHaH.Makefile_helpers as Makefile
    import nrpy.infrastructures.BHaH.numerical_grids_and_timestep as numericalgrids
    import nrpy.infrastructures.BHaH.wave_equation.wave_equation_C_codegen_library as wCl
    import nrpy.params as par
    from nrpy.helpers.generic import copy_files
    from nrpy.infrastructures.BHaH import griddata_commondata, rfm_precompute, rfm_wrapper_functions, xx_tofrom_Cart
    from nrpy.infrastructures.BHaH.MoLtimestepping import MoL

    par.set_parval_from_str("Infrastructure", "BHaH")
    CS = o["coords"]
    proj = os.path.join("project", o["name"])
    par.set_parval_from_str("parallel_codegen_enable", o["parallel"])
    par.set_parval_from_str("fd_order", o["fd"])
    if o.get("sym"):
        par.set_parval_from_str("symmetry_axes", o["sym"])
    if len(CS) == 1:
        par.set_parval_from_str("CoordSystem_to_register_CodeParameters", CS[0])
    else:
        par.adjust_CodeParam_default("NUMGRIDS", len(CS))
    par.adjust_CodeParam_default("t_final", o["t_final"])

    wCl.register_CFunction_initial_data(enable_checkpointing=True, OMP_collapse=o["collapse"])
    numericalgrids.register_CFunctions(list_of_CoordSystems=CS, list_of_grid_physical_sizes=o["sizes"], Nxx_dict=o["Nxx"],
                                       enable_rfm_precompute=o["rfm"], enable_CurviBCs=True)
    wCl.register_CFunction_exact_solution_single_Cartesian_point(WaveType=o["wave"], default_sigma=o["sigma"])
    for cs in CS:
        par.set_parval_from_str("CoordSystem_to_register_CodeParameters", cs)
        wCl.register_CFunction_rhs_eval(CoordSystem=cs, enable_rfm_precompute=o["rfm"], enable_simd=o["simd"],
                                        enable_KreissOliger_dissipation=o["ko"], OMP_collapse=o["collapse"])
        xx_tofrom_Cart.register_CFunction_xx_to_Cart(CoordSystem=cs)
    wCl.register_CFunction_diagnostics(
        list_of_CoordSystems=CS, default_diagnostics_out_every=o["diag_every"],
        grid_center_filename_tuple=("out0d-%s-cf%.2f.txt", "CoordSystemName, convergence_factor"),
        axis_filename_tuple=("out1d-AXIS-%s-cf%.2f-t%08.4f.txt", "CoordSystemName, convergence_factor, time"),
        plane_filename_tuple=("out2d-PLANE-%s-cf%.2f-t%08.4f.txt", "CoordSystemName, convergence_factor, time"))
    if o["parallel"]:
        pcg.do_parallel_codegen()
    if o["rfm"]:
        rfm_precompute.register_CFunctions_rfm_precompute(list_of_CoordSystems=CS)
    cbc.CurviBoundaryConditions_register_C_functions(list_of_CoordSystems=CS, radiation_BC_fd_order=o["bcfd"])
    rhs = """rhs_eval(commondata, params, rfmstruct,  RK_INPUT_GFS, RK_OUTPUT_GFS);
if (strncmp(commondata->outer_bc_type, "radiation", 50) == 0)
  apply_bcs_outerradiation_and_inner(commondata, params, bcstruct, griddata[grid].xx,
                                     gridfunctions_wavespeed,gridfunctions_f_infinity,
                                     RK_INPUT_GFS, RK_OUTPUT_GFS);"""
    if not o["rfm"]:
        rhs = rhs.replace("rfmstruct", "xx")
    MoL.register_CFunctions(MoL_method=o["mol"], rhs_string=rhs, post_rhs_string="""if (strncmp(commondata->outer_bc_type, "extrapolation", 50) == 0)
  apply_bcs_outerextrap_and_inner(commondata, params, bcstruct, RK_OUTPUT_GFS);""", enable_rfm_precompute=o["rfm"], enable_curviBCs=True)
    chkpt.register_CFunctions(default_checkpoint_every=o["cp_every"])
    progress.register_CFunction_progress_indicator()
    rfm_wrapper_functions.register_CFunctions_CoordSystem_wrapper_funcs()
    CPs.write_CodeParameters_h_files(project_dir=proj)
    CPs.register_CFunctions_params_commondata_struct_set_to_default()
    cmdpar.generate_default_parfile(project_dir=proj, project_name=o["name"])
    cmdpar.register_CFunction_cmdline_input_and_parfile_parser(project_name=o["name"], cmdline_inputs=["convergence_factor"])
    Bdefines_h.output_BHaH_defines_h(project_dir=proj, enable_intrinsics=o["simd"], enable_rfm_precompute=o["rfm"],
                                     fin_NGHOSTS_add_one_for_upwinding_or_KO=o["ko"])
    main.register_CFunction_main_c(initial_data_desc=o["wave"], pre_MoL_step_forward_in_time="write_checkpoint(&commondata, griddata);\n",
                                   MoL_method=o["mol"], boundary_conditions_desc="outgoing radiation")
    griddata_commondata.register_CFunction_griddata_free(enable_rfm_precompute=o["rfm"], enable_CurviBCs=True)
    if o["simd"]:
        copy_files(package="nrpy.helpers", filenames_list=["simd_intrinsics.h"], project_dir=proj, subdirectory="intrinsics")
    Makefile.output_CFunctions_function_prototypes_and_construct_Makefile(project_dir=proj, project_name=o["name"], exec_or_library_name=o["name"],
                                                                         compiler_opt_option=o["opt"])


if __name__ == "__main__":
    with open(sys.argv[1]) as f:
        generate(json.load(f))
