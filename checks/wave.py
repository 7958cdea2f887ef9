"""A complete wave-equation program on any coordinate system, through nrpy's public interface.

Call only in a fresh forked child.
"""

import os

import bhah
import vf

import nrpy.c_function as cfc
import nrpy.helpers.generic as gen
import nrpy.params as par

NXX = {"spherical": [8, 4, 4], "symtp": [6, 4, 4], "cylindrical": [6, 4, 4], "cartesian": [4, 5, 6], "wedge": [6, 4, 4], "ring": [6, 4, 4]}


DUMP = r"""
  char fn[99]; snprintf(fn, 99, "all-%d.txt", commondata->nn); FILE *f = fopen(fn, "w");
  for (int grid = 0; grid < commondata->NUMGRIDS; grid++) {
    const params_struct *p = &griddata[grid].params;
    const long n = (long)NUM_EVOL_GFS * p->Nxx_plus_2NGHOSTS0 * p->Nxx_plus_2NGHOSTS1 * p->Nxx_plus_2NGHOSTS2;
    for (long i = 0; i < n; i++) fprintf(f, "%.15e\n", (double)griddata[grid].gridfuncs.y_n_gfs[i]);
  }
  fclose(f);
"""


def project(d, cs, precompute=False, simd=False, ko=False, fd_order=4, method="RK4", collapse=1, checkpoint=True, nxx=None, size=5.0, rad_order=2, kinds=("SphericalGaussian",), diag=0.001, wave="SphericalGaussian"):
    """cs: one system or a list (one grid each). Returns the C files."""
    from nrpy.infrastructures.BHaH import checkpointing as chk  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH import cmdline_input_and_parfiles as cmdpar  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH import griddata_commondata, main_c, rfm_precompute, xx_tofrom_Cart  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH import numerical_grids_and_timestep as ng  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH.CurviBoundaryConditions import CurviBoundaryConditions as cbc  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH.MoLtimestepping import MoL  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH.diagnostics import progress_indicator  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH.wave_equation import wave_equation_C_codegen_library as w  # pylint: disable=import-outside-toplevel

    os.makedirs(d, exist_ok=True)
    bhah.start(fd_order)
    systems = [cs] if isinstance(cs, str) else list(cs)
    par.set_parval_from_str("CoordSystem_to_register_CodeParameters", systems[0] if len(systems) == 1 else "All")
    w.register_CFunction_exact_solution_single_Cartesian_point(WaveType=wave, default_sigma=1.3)
    w.register_CFunction_initial_data(enable_checkpointing=checkpoint, OMP_collapse=collapse)
    ng.register_CFunctions(list_of_CoordSystems=systems, list_of_grid_physical_sizes=[size] * len(systems), Nxx_dict=nxx or {c: NXX[bhah.family(c)] for c in systems}, enable_rfm_precompute=precompute, enable_CurviBCs=True)
    if any(bhah.family(c) == "wedge" for c in systems):  # no diagnostics for these: output everything
        par.register_CodeParameter("REAL", "vf", "diagnostics_output_every", diag, commondata=True)
        cfc.register_CFunction(includes=["BHaH_defines.h", "BHaH_function_prototypes.h"], desc="all data", name="diagnostics", params="commondata_struct *restrict commondata, griddata_struct *restrict griddata", body=DUMP)
    else:
        w.register_CFunction_diagnostics(list_of_CoordSystems=systems, default_diagnostics_out_every=diag, out_quantities_dict="default")
    if precompute:
        rfm_precompute.register_CFunctions_rfm_precompute(list_of_CoordSystems=systems)
    for c in systems:
        xx_tofrom_Cart.register_CFunction_xx_to_Cart(CoordSystem=c)
        w.register_CFunction_rhs_eval(CoordSystem=c, enable_rfm_precompute=precompute, enable_simd=simd, enable_KreissOliger_dissipation=ko, OMP_collapse=collapse)
    cbc.CurviBoundaryConditions_register_C_functions(list_of_CoordSystems=systems, radiation_BC_fd_order=rad_order)
    rhs = """rhs_eval(commondata, params, rfmstruct,  RK_INPUT_GFS, RK_OUTPUT_GFS);
if (strncmp(commondata->outer_bc_type, "radiation", 50) == 0)
  apply_bcs_outerradiation_and_inner(commondata, params, bcstruct, griddata[grid].xx, gridfunctions_wavespeed,gridfunctions_f_infinity, RK_INPUT_GFS, RK_OUTPUT_GFS);"""
    MoL.register_CFunctions(
        MoL_method=method,
        rhs_string=rhs if precompute else rhs.replace("rfmstruct", "xx"),
        post_rhs_string="""if (strncmp(commondata->outer_bc_type, "extrapolation", 50) == 0)
  apply_bcs_outerextrap_and_inner(commondata, params, bcstruct, RK_OUTPUT_GFS);""",
        enable_rfm_precompute=precompute,
        enable_curviBCs=True,
    )
    if checkpoint:
        chk.register_CFunctions(default_checkpoint_every=0.001)
    progress_indicator.register_CFunction_progress_indicator()
    griddata_commondata.register_CFunction_griddata_free(enable_rfm_precompute=precompute, enable_CurviBCs=True)
    from nrpy.infrastructures.BHaH import CodeParameters as CPs  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH import rfm_wrapper_functions as rw  # pylint: disable=import-outside-toplevel

    rw.register_CFunctions_CoordSystem_wrapper_funcs()
    CPs.write_CodeParameters_h_files(project_dir=d)
    CPs.register_CFunctions_params_commondata_struct_set_to_default()
    cmdpar.generate_default_parfile(project_dir=d, project_name="vfwave")
    cmdpar.register_CFunction_cmdline_input_and_parfile_parser(project_name="vfwave", cmdline_inputs=["convergence_factor"])
    main_c.register_CFunction_main_c(initial_data_desc="wave", pre_MoL_step_forward_in_time="write_checkpoint(&commondata, griddata);\n" if checkpoint else "", MoL_method=method, boundary_conditions_desc="any")
    if simd:
        gen.copy_files(package="nrpy.helpers", filenames_list=["simd_intrinsics.h"], project_dir=d, subdirectory="intrinsics")
    return bhah.finish(d, "vfwave", rfm_precompute=precompute, simd=simd, add_ghost=ko, wrappers=False, defaults=False)
