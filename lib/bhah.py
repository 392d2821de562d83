"""Small BHaH projects assembled from registered C functions plus a driver main()."""
import os
import shutil

import nr
import vp

_INIT = False


def init():
    """Import every BHaH module once (they register CodeParameters on import), then snapshot."""
    global _INIT
    if _INIT:
        return
    import nrpy.params as par
    par.set_parval_from_str("Infrastructure", "BHaH")
    import nrpy.infrastructures.BHaH.BHaH_defines_h  # noqa
    import nrpy.infrastructures.BHaH.CodeParameters  # noqa
    import nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions  # noqa
    import nrpy.infrastructures.BHaH.MoLtimestepping.MoL  # noqa
    import nrpy.infrastructures.BHaH.checkpointing  # noqa
    import nrpy.infrastructures.BHaH.cmdline_input_and_parfiles  # noqa
    import nrpy.infrastructures.BHaH.griddata_commondata  # noqa
    import nrpy.infrastructures.BHaH.numerical_grids_and_timestep  # noqa
    import nrpy.infrastructures.BHaH.rfm_precompute  # noqa
    import nrpy.infrastructures.BHaH.rfm_wrapper_functions  # noqa
    import nrpy.infrastructures.BHaH.xx_tofrom_Cart  # noqa
    import nrpy.helpers.parallel_codegen  # noqa
    nr.snapshot()
    _INIT = True


def start(fp="double", fd_order=4, coord=None):
    init()
    nr.reset("BHaH")
    import nrpy.params as par
    import nrpy.reference_metric as rm
    import nrpy.helpers.parallel_codegen as pcg
    rm.reference_metric.clear()
    pcg.ParallelCodeGen_dict.clear() if hasattr(pcg, "ParallelCodeGen_dict") else None
    par.set_parval_from_str("fp_type", fp)
    par.set_parval_from_str("fd_order", fd_order)
    par.set_parval_from_str("parallel_codegen_enable", False)
    if coord:
        par.set_parval_from_str("CoordSystem_to_register_CodeParameters", coord)


def emit(d, simd=False, rfm_pre=False, upwind=False, wrappers=True, extra_defines=None):
    """Write headers and one C file per registered function; returns the file list."""
    import nrpy.c_function as cfc
    from nrpy.infrastructures.BHaH import BHaH_defines_h as bd
    from nrpy.infrastructures.BHaH import CodeParameters as cp
    from nrpy.infrastructures.BHaH import rfm_wrapper_functions as rw
    if wrappers:
        rw.register_CFunctions_CoordSystem_wrapper_funcs()
    cp.write_CodeParameters_h_files(project_dir=d)
    cp.register_CFunctions_params_commondata_struct_set_to_default()
    bd.output_BHaH_defines_h(project_dir=d, enable_intrinsics=simd, enable_rfm_precompute=rfm_pre,
                             fin_NGHOSTS_add_one_for_upwinding_or_KO=upwind, supplemental_defines_dict=extra_defines)
    if simd:
        os.makedirs(os.path.join(d, "intrinsics"), exist_ok=True)
        shutil.copy(os.path.join(vp.REPO, "nrpy/helpers/simd_intrinsics.h"), os.path.join(d, "intrinsics"))
    files = []
    for name, f in cfc.CFunction_dict.items():
        sub = os.path.normpath(os.path.join(d, f.subdirectory or "."))
        os.makedirs(sub, exist_ok=True)
        p = os.path.join(sub, name + ".c")
        with open(p, "w") as fh:
            fh.write(f.full_function)
        files.append(p)
    with open(os.path.join(d, "BHaH_function_prototypes.h"), "w") as fh:
        fh.write("\n".join(f.function_prototype for f in cfc.CFunction_dict.values()) + "\n")
    return files


def build(main_src, flags=("-O1",), libs=("-lm",), cc="gcc", d=None, **kw):
    d = d or vp.fresh_dir()
    files = emit(d, **kw)
    p = os.path.join(d, "zz_driver.c")
    with open(p, "w") as f:
        f.write(main_src)
    exe = vp.compile_c(files + [p], out=os.path.join(d, "a.out"), flags=list(flags) + ["-I" + d], libs=libs, cc=cc, cwd=d)
    return exe, d
