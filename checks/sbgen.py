"""Generates small superB projects (run as a script: python sbgen.py DIR JSON) and builds them with the stand-in runtime."""

import glob
import json
import os
import re
import subprocess
import sys

import vf

HERE = os.path.dirname(os.path.abspath(__file__))
CSRC = os.path.join(HERE, "..", "csrc", "charm")


def elliptic(d, cfg):
    """The hyperbolic relaxation project of nrpy.examples.superB_nrpyelliptic_conformally_flat on a small grid."""
    from pathlib import Path

    import nrpy.helpers.parallel_codegen as pcg
    import nrpy.infrastructures.BHaH.BHaH_defines_h as Bdefines_h
    import nrpy.infrastructures.BHaH.cmdline_input_and_parfiles as cmdpar
    import nrpy.infrastructures.BHaH.CodeParameters as CPs
    import nrpy.infrastructures.BHaH.diagnostics.progress_indicator as progress
    import nrpy.infrastructures.BHaH.nrpyelliptic.conformally_flat_C_codegen_library as ell
    import nrpy.infrastructures.BHaH.numerical_grids_and_timestep as numericalgrids
    import nrpy.infrastructures.superB.chare_communication_maps as charecomm
    import nrpy.infrastructures.superB.CurviBoundaryConditions as superBcbc
    import nrpy.infrastructures.superB.initial_data  # pylint: disable=unused-import
    import nrpy.infrastructures.superB.main_chare as superBmain
    import nrpy.infrastructures.superB.Makefile_helpers as superBMakefile
    import nrpy.infrastructures.superB.MoL as superBMoL
    import nrpy.infrastructures.superB.nrpyelliptic.conformally_flat_C_codegen_library as sbell
    import nrpy.infrastructures.superB.numerical_grids as superBnumericalgrids
    import nrpy.infrastructures.superB.superB.superB_pup as superBpup
    import nrpy.infrastructures.superB.timestepping_chare as superBtimestepping
    import nrpy.params as par
    from nrpy.helpers.generic import copy_files
    from nrpy.infrastructures.BHaH import griddata_commondata, rfm_precompute, rfm_wrapper_functions, xx_tofrom_Cart

    cs, mol, outer, simd = cfg["cs"], cfg["mol"], cfg["outer"], cfg["simd"]
    par.set_parval_from_str("Infrastructure", "BHaH")
    par.set_parval_from_str("parallel_codegen_enable", False)
    par.set_parval_from_str("fd_order", cfg["fd"])
    par.set_parval_from_str("CoordSystem_to_register_CodeParameters", cs)
    size = 50.0
    ell.register_CFunction_initial_guess_single_point()
    ell.register_CFunction_initial_guess_all_points(OMP_collapse=1, enable_checkpointing=False)
    ell.register_CFunction_variable_wavespeed_gfs_all_points(CoordSystem=cs)
    ell.register_CFunction_auxevol_gfs_single_point(CoordSystem=cs)
    ell.register_CFunction_auxevol_gfs_all_points(OMP_collapse=1)
    ell.register_CFunction_initialize_constant_auxevol()
    numericalgrids.register_CFunctions(list_of_CoordSystems=[cs], list_of_grid_physical_sizes=[size], Nxx_dict={cs: cfg["Nxx"]}, enable_rfm_precompute=True, enable_CurviBCs=True)
    superBnumericalgrids.register_CFunctions(list_of_CoordSystems=[cs], enable_rfm_precompute=True, enable_CurviBCs=True)
    xx_tofrom_Cart.register_CFunction_xx_to_Cart(CoordSystem=cs)
    sbell.register_CFunction_diagnostics(CoordSystem=cs, default_diagnostics_out_every=1)
    rfm_precompute.register_CFunctions_rfm_precompute(list_of_CoordSystems=[cs])
    ell.register_CFunction_rhs_eval(CoordSystem=cs, enable_rfm_precompute=True, enable_simd=simd, OMP_collapse=1)
    ell.register_CFunction_compute_residual_all_points(CoordSystem=cs, enable_rfm_precompute=True, enable_simd=simd, OMP_collapse=1)
    sbell.register_CFunction_compute_L2_norm_of_gridfunction(CoordSystem=cs)
    ell.register_CFunction_check_stop_conditions()
    if cfg.get("pup"):
        import nrpy.infrastructures.BHaH.checkpointing as chkpt

        chkpt.register_CFunctions(default_checkpoint_every=1e10)
    charecomm.chare_comm_register_C_functions(list_of_CoordSystems=[cs])
    superBcbc.CurviBoundaryConditions_register_C_functions(list_of_CoordSystems=[cs], radiation_BC_fd_order=cfg.get("rad", 2))
    rhs = "rhs_eval(commondata, params, rfmstruct,  auxevol_gfs, RK_INPUT_GFS, RK_OUTPUT_GFS);"
    post = ""
    if outer == "radiation":
        rhs += """
const REAL wavespeed_at_outer_boundary = griddata[grid].params.wavespeed_at_outer_boundary;
const REAL custom_gridfunctions_wavespeed[2] = {wavespeed_at_outer_boundary, wavespeed_at_outer_boundary};
apply_bcs_outerradiation_and_inner(commondata, params, bcstruct, griddata->xx,
                                    custom_gridfunctions_wavespeed, gridfunctions_f_infinity,
                                    RK_INPUT_GFS, RK_OUTPUT_GFS);"""
    else:
        post = "\napply_bcs_outerextrap_and_inner(commondata, params, bcstruct, RK_OUTPUT_GFS);"
    superBMoL.register_CFunctions(MoL_method=mol, rhs_string=rhs, post_rhs_bcs_str=post, enable_rfm_precompute=True, enable_curviBCs=True)
    progress.register_CFunction_progress_indicator(progress_str="\n", compute_ETA=False)
    rfm_wrapper_functions.register_CFunctions_CoordSystem_wrapper_funcs()
    for k, v in dict(eta_damping=11.0, MINIMUM_GLOBAL_WAVESPEED=0.7, CFL_FACTOR=1.0, zPunc=5.0, bare_mass_0=0.5, bare_mass_1=0.4, S0_y=0.1, S1_y=-0.05, P0_x=0.09, P0_z=-0.001, P1_x=-0.09, P1_z=0.001).items():
        par.adjust_CodeParam_default(k, v)
    for k, v in dict(AMAX=size, bScale=5.0, SINHWAA=0.3, AMPLRHO=size, AMPLZ=size, SINHWRHO=0.4, SINHWZ=0.4, AMPL=size, SINHW=0.3).items():
        if k in par.glb_code_params_dict:
            par.adjust_CodeParam_default(k, v)
    CPs.write_CodeParameters_h_files(project_dir=d)
    CPs.register_CFunctions_params_commondata_struct_set_to_default()
    cmdpar.generate_default_parfile(project_dir=d, project_name="proj")
    cmdpar.register_CFunction_cmdline_input_and_parfile_parser(project_name="proj", cmdline_inputs=["convergence_factor"])
    copy_files(package="nrpy.infrastructures.superB.superB", filenames_list=["superB.h", "superB_pup_function_prototypes.h"], project_dir=d, subdirectory="superB")
    superBmain.output_commondata_object_h_and_main_h_cpp_ci(project_dir=d, enable_charm_checkpointing=cfg.get("pup", False))
    superBtimestepping.output_timestepping_h_cpp_ci_register_CFunctions(
        project_dir=d,
        MoL_method=mol,
        outer_bcs_type=outer,
        enable_rfm_precompute=True,
        enable_psi4_diagnostics=False,
        enable_residual_diagnostics=True,
        enable_charm_checkpointing=cfg.get("pup", False),
        post_non_y_n_auxevol_mallocs="initialize_constant_auxevol(&commondata, griddata_chare);\n",
        post_MoL_step_forward_in_time="\nserial {\n  check_stop_conditions(&commondata, griddata_chare);\n  if (commondata.stop_relaxation) {\n    mainProxy.done();\n  }\n}\n",
    )
    griddata_commondata.register_CFunction_griddata_free(enable_rfm_precompute=True, enable_CurviBCs=True)
    superBpup.register_CFunction_superB_pup_routines(list_of_CoordSystems=[cs], MoL_method=mol)
    Bdefines_h.output_BHaH_defines_h(additional_includes=[str(Path("superB") / Path("superB.h"))], project_dir=d, enable_intrinsics=simd)
    if simd:
        copy_files(package="nrpy.helpers", filenames_list=["simd_intrinsics.h"], project_dir=d, subdirectory="intrinsics")
    superBMakefile.output_CFunctions_function_prototypes_and_construct_Makefile(project_dir=d, project_name="proj", exec_or_library_name="proj", compiler_opt_option="default", addl_CFLAGS=["-fpermissive "], addl_libraries=["-module CkIO"], CC="charmc")
    del pcg


def wave_common(cfg):
    """C functions that the superB and the BHaH version of the wave project share; returns (rhs, boundary, post) strings."""
    import nrpy.c_function as cfc
    import nrpy.grid as gri
    import nrpy.infrastructures.BHaH.numerical_grids_and_timestep as numericalgrids
    import nrpy.infrastructures.BHaH.wave_equation.wave_equation_C_codegen_library as wl
    import nrpy.params as par
    from nrpy.infrastructures.BHaH import rfm_precompute, xx_tofrom_Cart

    cs, mol, outer, simd = cfg["cs"], cfg["mol"], cfg["outer"], cfg["simd"]
    par.set_parval_from_str("Infrastructure", "BHaH")
    par.set_parval_from_str("parallel_codegen_enable", False)
    par.set_parval_from_str("fd_order", cfg["fd"])
    par.set_parval_from_str("CoordSystem_to_register_CodeParameters", cs)
    # An auxiliary gridfunction that is synchronised and one that is not, both coupled to the evolution.
    gri.register_gridfunctions("auxcc", group="AUXEVOL", sync_gf_in_superB=True)
    gri.register_gridfunctions("auxbb", group="AUXEVOL", sync_gf_in_superB=False)
    cfc.register_CFunction(
        includes=["BHaH_defines.h", "BHaH_function_prototypes.h"],
        desc="Sets the auxiliary gridfunction in the interior and at local inner boundary points.",
        cfunc_type="void",
        name="aux_eval",
        params="const commondata_struct *restrict commondata, const params_struct *restrict params, const bc_struct *restrict bcstruct, const REAL *restrict in_gfs, REAL *restrict auxevol_gfs",
        include_CodeParameters_h=True,
        body="""
for (int i2 = NGHOSTS; i2 < Nxx2 + NGHOSTS; i2++)
  for (int i1 = NGHOSTS; i1 < Nxx1 + NGHOSTS; i1++)
    for (int i0 = NGHOSTS; i0 < Nxx0 + NGHOSTS; i0++)
      auxevol_gfs[IDX4(AUXCCGF, i0, i1, i2)] = in_gfs[IDX4(UUGF, i0, i1, i2)] * in_gfs[IDX4(UUGF, i0, i1, i2)];
for (int pt = 0; pt < bcstruct->bc_info.num_inner_boundary_points; pt++)
  auxevol_gfs[IDX4pt(AUXCCGF, bcstruct->inner_bc_array[pt].dstpt)] = auxevol_gfs[IDX4pt(AUXCCGF, bcstruct->inner_bc_array[pt].srcpt)];
""",
    )
    cfc.register_CFunction(
        includes=["BHaH_defines.h", "BHaH_function_prototypes.h"],
        desc="Couples the auxiliary gridfunctions to the evolution.",
        cfunc_type="void",
        name="aux_couple",
        params="const commondata_struct *restrict commondata, const params_struct *restrict params, const REAL *restrict auxevol_gfs, REAL *restrict rhs_gfs",
        include_CodeParameters_h=True,
        body="""
for (int i2 = NGHOSTS; i2 < Nxx2 + NGHOSTS; i2++)
  for (int i1 = NGHOSTS; i1 < Nxx1 + NGHOSTS; i1++)
    for (int i0 = NGHOSTS; i0 < Nxx0 + NGHOSTS; i0++)
      rhs_gfs[IDX4(VVGF, i0, i1, i2)] += 0.01 * auxevol_gfs[IDX4(AUXBBGF, i0, i1, i2)] * (
          (auxevol_gfs[IDX4(AUXCCGF, i0 + 1, i1, i2)] - auxevol_gfs[IDX4(AUXCCGF, i0 - 1, i1, i2)]) +
          (auxevol_gfs[IDX4(AUXCCGF, i0, i1 + 1, i2)] - auxevol_gfs[IDX4(AUXCCGF, i0, i1 - 1, i2)]) +
          (auxevol_gfs[IDX4(AUXCCGF, i0, i1, i2 + 1)] - auxevol_gfs[IDX4(AUXCCGF, i0, i1, i2 - 1)]));
""",
    )
    wl.register_CFunction_exact_solution_single_Cartesian_point(WaveType="SphericalGaussian", default_sigma=3.0)
    cfc.register_CFunction(
        includes=["BHaH_defines.h", "BHaH_function_prototypes.h"],
        desc="Initial data: a translated wave packet.",
        cfunc_type="void",
        name="initial_data",
        params="commondata_struct *restrict commondata, griddata_struct *restrict griddata, const int initial_data_part",
        include_CodeParameters_h=False,
        body="""
for (int grid = 0; grid < commondata->NUMGRIDS; grid++) {
  params_struct *restrict params = &griddata[grid].params;
  REAL *restrict y_n_gfs = griddata[grid].gridfuncs.y_n_gfs;
  const int Nxx_plus_2NGHOSTS0 = params->Nxx_plus_2NGHOSTS0;
  const int Nxx_plus_2NGHOSTS1 = params->Nxx_plus_2NGHOSTS1;
  const int Nxx_plus_2NGHOSTS2 = params->Nxx_plus_2NGHOSTS2;
  if (initial_data_part == INITIALDATA_BIN_ONE) {
    for (int i2 = 0; i2 < Nxx_plus_2NGHOSTS2; i2++)
      for (int i1 = 0; i1 < Nxx_plus_2NGHOSTS1; i1++)
        for (int i0 = 0; i0 < Nxx_plus_2NGHOSTS0; i0++) {
          REAL xCart[3];
          xx_to_Cart(commondata, params, griddata[grid].xx, i0, i1, i2, xCart);
          const int idx3 = IDX3(i0, i1, i2);
          exact_solution_single_Cartesian_point(commondata, params, xCart[0] - 0.7, xCart[1] + 0.3, xCart[2] - 0.4, &y_n_gfs[IDX4pt(UUGF, idx3)], &y_n_gfs[IDX4pt(VVGF, idx3)]);
          griddata[grid].gridfuncs.auxevol_gfs[IDX4pt(AUXCCGF, idx3)] = 0.25;
          griddata[grid].gridfuncs.auxevol_gfs[IDX4pt(AUXBBGF, idx3)] = 0.5 + 0.01 * xCart[0];
        }
    aux_eval(commondata, params, &griddata[grid].bcstruct, y_n_gfs, griddata[grid].gridfuncs.auxevol_gfs);
  } else if (initial_data_part == INITIALDATA_APPLYBCS_INNERONLY) {
    apply_bcs_inner_only(commondata, params, &griddata[grid].bcstruct, y_n_gfs);
  } else if (initial_data_part == INITIALDATA_APPLYBCS_OUTEREXTRAPANDINNER) {
    apply_bcs_outerextrap_and_inner(commondata, params, &griddata[grid].bcstruct, y_n_gfs);
  }
}
""",
    )
    numericalgrids.register_CFunctions(list_of_CoordSystems=[cs], list_of_grid_physical_sizes=[10.0], Nxx_dict={cs: cfg["Nxx"]}, enable_rfm_precompute=True, enable_CurviBCs=True)
    rfm_precompute.register_CFunctions_rfm_precompute(list_of_CoordSystems=[cs])
    wl.register_CFunction_rhs_eval(CoordSystem=cs, enable_rfm_precompute=True, enable_simd=simd, enable_KreissOliger_dissipation=False, OMP_collapse=1)
    xx_tofrom_Cart.register_CFunction__Cart_to_xx_and_nearest_i0i1i2(cs)
    xx_tofrom_Cart.register_CFunction_xx_to_Cart(cs)
    rhs = "rhs_eval(commondata, params, rfmstruct, RK_INPUT_GFS, RK_OUTPUT_GFS);\naux_couple(commondata, params, auxevol_gfs, RK_OUTPUT_GFS);"
    post = ""
    if outer == "radiation":
        rhs += """
apply_bcs_outerradiation_and_inner(commondata, params, bcstruct, griddata[grid].xx, gridfunctions_wavespeed,
                                   gridfunctions_f_infinity, RK_INPUT_GFS, RK_OUTPUT_GFS);"""
    else:
        post = "\napply_bcs_outerextrap_and_inner(commondata, params, bcstruct, RK_OUTPUT_GFS);"
    return rhs, post, "aux_eval(commondata, params, bcstruct, RK_OUTPUT_GFS, auxevol_gfs);"


def wavebhah(d, cfg):
    """The same evolution with the BHaH infrastructure (one address space): the reference result."""
    import nrpy.infrastructures.BHaH.BHaH_defines_h as Bdefines_h
    import nrpy.infrastructures.BHaH.cmdline_input_and_parfiles as cmdpar
    import nrpy.infrastructures.BHaH.CodeParameters as CPs
    import nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions as cbc
    import nrpy.infrastructures.BHaH.Makefile_helpers as Makefile
    import nrpy.infrastructures.BHaH.MoLtimestepping.MoL as MoL
    from nrpy.helpers.generic import copy_files
    from nrpy.infrastructures.BHaH import rfm_wrapper_functions

    cs = cfg["cs"]
    rhs, post, post2 = wave_common(cfg)
    cbc.CurviBoundaryConditions_register_C_functions(list_of_CoordSystems=[cs], radiation_BC_fd_order=cfg.get("rad", 2))
    MoL.register_CFunctions(MoL_method=cfg["mol"], rhs_string=rhs, post_rhs_string=post + "\n" + post2, enable_rfm_precompute=True, enable_curviBCs=True)
    rfm_wrapper_functions.register_CFunctions_CoordSystem_wrapper_funcs()
    CPs.write_CodeParameters_h_files(project_dir=d)
    CPs.register_CFunctions_params_commondata_struct_set_to_default()
    cmdpar.generate_default_parfile(project_dir=d, project_name="proj")
    cmdpar.register_CFunction_cmdline_input_and_parfile_parser(project_name="proj", cmdline_inputs=["convergence_factor"])
    parts = "\nenum { INITIALDATA_BIN_ONE, INITIALDATA_APPLYBCS_INNERONLY, INITIALDATA_BIN_TWO, INITIALDATA_APPLYBCS_OUTEREXTRAPANDINNER };\n"
    Bdefines_h.output_BHaH_defines_h(project_dir=d, enable_intrinsics=cfg["simd"], enable_rfm_precompute=True, fin_NGHOSTS_add_one_for_upwinding_or_KO=False, supplemental_defines_dict={"parts": parts})
    if cfg["simd"]:
        copy_files(package="nrpy.helpers", filenames_list=["simd_intrinsics.h"], project_dir=d, subdirectory="intrinsics")
    vf.write(os.path.join(d, "main.c"), BHAH_MAIN)
    import nrpy.c_function as cfc

    cfc.register_CFunction(includes=["BHaH_defines.h"], desc="unused", cfunc_type="int", name="main", params="int argc, const char *argv[]", body="return 0;")
    Makefile.output_CFunctions_function_prototypes_and_construct_Makefile(project_dir=d, project_name="proj", exec_or_library_name="proj", compiler_opt_option="default", CC="gcc")
    vf.write(os.path.join(d, "main.c"), BHAH_MAIN)


BHAH_MAIN = r"""
#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
int main(int argc, const char *argv[]) {
  commondata_struct commondata;
  commondata_struct_set_to_default(&commondata);
  const char *av[] = {argv[0], argv[1]};
  cmdline_input_and_parfile_parser(&commondata, 2, av);
  griddata_struct *griddata = (griddata_struct *)malloc(sizeof(griddata_struct) * commondata.NUMGRIDS);
  params_struct_set_to_default(&commondata, griddata);
  numerical_grids_and_timestep(&commondata, griddata, true);
  for (int grid = 0; grid < commondata.NUMGRIDS; grid++) {
    MoL_malloc_y_n_gfs(&commondata, &griddata[grid].params, &griddata[grid].gridfuncs);
    MoL_malloc_non_y_n_gfs(&commondata, &griddata[grid].params, &griddata[grid].gridfuncs);
  }
  initial_data(&commondata, griddata, INITIALDATA_BIN_ONE);
  initial_data(&commondata, griddata, INITIALDATA_APPLYBCS_INNERONLY);
  initial_data(&commondata, griddata, INITIALDATA_BIN_TWO);
  initial_data(&commondata, griddata, INITIALDATA_APPLYBCS_OUTEREXTRAPANDINNER);
  while (commondata.time < commondata.t_final) MoL_step_forward_in_time(&commondata, griddata);
  const params_struct *p = &griddata[0].params;
  size_t n = (size_t)p->Nxx_plus_2NGHOSTS0 * p->Nxx_plus_2NGHOSTS1 * p->Nxx_plus_2NGHOSTS2 * NUM_EVOL_GFS;
  FILE *f = fopen(argv[2], "wb");
  fwrite(griddata[0].gridfuncs.y_n_gfs, sizeof(REAL), n, f);
  fclose(f);
  printf("NN %d\n", commondata.nn);
  return 0;
}
"""


def wave(d, cfg):
    """The scalar wave equation as a superB evolution project (initial data, boundary conditions and diagnostics as in
    nrpy.examples.superB_two_blackholes_collide, with the wave equation instead of BSSN)."""
    from pathlib import Path

    import nrpy.infrastructures.BHaH.BHaH_defines_h as Bdefines_h
    import nrpy.infrastructures.BHaH.cmdline_input_and_parfiles as cmdpar
    import nrpy.infrastructures.BHaH.CodeParameters as CPs
    import nrpy.infrastructures.BHaH.diagnostics.progress_indicator as progress
    import nrpy.infrastructures.superB.chare_communication_maps as charecomm
    import nrpy.infrastructures.superB.CurviBoundaryConditions as superBcbc
    import nrpy.infrastructures.superB.diagnostics as superBdiagnostics
    import nrpy.infrastructures.superB.initial_data  # pylint: disable=unused-import
    import nrpy.infrastructures.superB.main_chare as superBmain
    import nrpy.infrastructures.superB.Makefile_helpers as superBMakefile
    import nrpy.infrastructures.superB.MoL as superBMoL
    import nrpy.infrastructures.superB.numerical_grids as superBnumericalgrids
    import nrpy.infrastructures.superB.superB.superB_pup as superBpup
    import nrpy.infrastructures.superB.timestepping_chare as superBtimestepping
    from nrpy.helpers.generic import copy_files
    from nrpy.infrastructures.BHaH import rfm_wrapper_functions

    cs, mol, outer, simd = cfg["cs"], cfg["mol"], cfg["outer"], cfg["simd"]
    rhs, post, post2 = wave_common(cfg)
    superBnumericalgrids.register_CFunctions(list_of_CoordSystems=[cs], enable_rfm_precompute=True, enable_CurviBCs=True)
    superBdiagnostics.register_CFunction_diagnostics(
        list_of_CoordSystems=[cs],
        default_diagnostics_out_every=1e-6,
        grid_center_filename_tuple=("out0d-conv_factor%.2f.txt", "convergence_factor"),
        axis_filename_tuple=("out1d-AXIS-conv_factor%.2f-t%08.4f.txt", "convergence_factor, time"),
        plane_filename_tuple=("out2d-PLANE-conv_factor%.2f-t%08.4f.txt", "convergence_factor, time"),
        out_quantities_dict={("REAL", "uuL"): "y_n_gfs[IDX4pt(UUGF, idx3)]", ("REAL", "vvL"): "y_n_gfs[IDX4pt(VVGF, idx3)]"},
        enable_BSSN_diagnostics=False,
        enable_psi4_diagnostics=False,
    )
    if cfg.get("pup"):
        import nrpy.infrastructures.BHaH.checkpointing as chkpt

        chkpt.register_CFunctions(default_checkpoint_every=1e10)
    charecomm.chare_comm_register_C_functions(list_of_CoordSystems=[cs])
    superBcbc.CurviBoundaryConditions_register_C_functions(list_of_CoordSystems=[cs], radiation_BC_fd_order=cfg.get("rad", 2))
    superBMoL.register_CFunctions(MoL_method=mol, rhs_string=rhs, post_rhs_bcs_str=post, post_rhs_string=post2, enable_rfm_precompute=True, enable_curviBCs=True)
    progress.register_CFunction_progress_indicator(progress_str="\n", compute_ETA=False)
    rfm_wrapper_functions.register_CFunctions_CoordSystem_wrapper_funcs()
    CPs.write_CodeParameters_h_files(project_dir=d)
    CPs.register_CFunctions_params_commondata_struct_set_to_default()
    cmdpar.generate_default_parfile(project_dir=d, project_name="proj")
    cmdpar.register_CFunction_cmdline_input_and_parfile_parser(project_name="proj", cmdline_inputs=["convergence_factor"])
    copy_files(package="nrpy.infrastructures.superB.superB", filenames_list=["superB.h", "superB_pup_function_prototypes.h"], project_dir=d, subdirectory="superB")
    superBmain.output_commondata_object_h_and_main_h_cpp_ci(project_dir=d, enable_charm_checkpointing=cfg.get("pup", False))
    superBtimestepping.output_timestepping_h_cpp_ci_register_CFunctions(
        project_dir=d,
        MoL_method=mol,
        outer_bcs_type=outer,
        enable_rfm_precompute=True,
        enable_psi4_diagnostics=False,
        enable_charm_checkpointing=cfg.get("pup", False),
    )
    superBpup.register_CFunction_superB_pup_routines(list_of_CoordSystems=[cs], MoL_method=mol)
    Bdefines_h.output_BHaH_defines_h(additional_includes=[str(Path("superB") / Path("superB.h"))], project_dir=d, enable_intrinsics=simd, enable_rfm_precompute=True, fin_NGHOSTS_add_one_for_upwinding_or_KO=False)
    if simd:
        copy_files(package="nrpy.helpers", filenames_list=["simd_intrinsics.h"], project_dir=d, subdirectory="intrinsics")
    superBMakefile.output_CFunctions_function_prototypes_and_construct_Makefile(project_dir=d, project_name="proj", exec_or_library_name="proj", compiler_opt_option="default", addl_CFLAGS=["-fpermissive "], addl_libraries=["-module CkIO"], CC="charmc")


def maps(d, cfg):
    """Only the grids, boundary structs, chare maps and slices."""
    from pathlib import Path

    import nrpy.finite_difference  # pylint: disable=unused-import
    import nrpy.grid as gri
    import nrpy.helpers.parallel_codegen  # pylint: disable=unused-import
    import nrpy.infrastructures.BHaH.BHaH_defines_h as Bdefines_h
    import nrpy.infrastructures.BHaH.CodeParameters as CPs
    import nrpy.infrastructures.BHaH.numerical_grids_and_timestep as numericalgrids
    import nrpy.infrastructures.superB.chare_communication_maps as charecomm
    import nrpy.infrastructures.superB.CurviBoundaryConditions as superBcbc
    import nrpy.infrastructures.superB.diagnostics as superBdiagnostics
    import nrpy.infrastructures.superB.main_chare  # pylint: disable=unused-import
    import nrpy.infrastructures.superB.Makefile_helpers as superBMakefile
    import nrpy.infrastructures.superB.MoL as superBMoL
    import nrpy.infrastructures.superB.numerical_grids as superBnumericalgrids
    import nrpy.params as par
    from nrpy.helpers.generic import copy_files
    from nrpy.infrastructures.BHaH import rfm_precompute, rfm_wrapper_functions, xx_tofrom_Cart

    cs, rfm = cfg["cs"], cfg["rfm"]
    par.set_parval_from_str("Infrastructure", "BHaH")
    par.set_parval_from_str("parallel_codegen_enable", False)
    par.set_parval_from_str("fd_order", cfg["fd"])
    par.set_parval_from_str("CoordSystem_to_register_CodeParameters", cs)
    gri.register_gridfunctions("uu", group="EVOL")
    gri.register_gridfunctions_for_single_rank1("vecU", group="EVOL")
    gri.register_gridfunctions_for_single_rank2("tenDD", symmetry="sym01", group="EVOL")
    gri.register_gridfunctions("auxcc", group="AUXEVOL")
    numericalgrids.register_CFunctions(list_of_CoordSystems=[cs], list_of_grid_physical_sizes=[7.0], Nxx_dict={cs: [4, 4, 4]}, enable_rfm_precompute=rfm, enable_CurviBCs=True)
    if rfm:
        rfm_precompute.register_CFunctions_rfm_precompute(list_of_CoordSystems=[cs])
    superBnumericalgrids.register_CFunctions(list_of_CoordSystems=[cs], enable_rfm_precompute=rfm, enable_CurviBCs=True)
    superBdiagnostics.register_CFunction_diagnostics(
        list_of_CoordSystems=[cs],
        default_diagnostics_out_every=1.0,
        grid_center_filename_tuple=("out0d-conv_factor%.2f.txt", "convergence_factor"),
        axis_filename_tuple=("out1d-AXIS-conv_factor%.2f-t%08.4f.txt", "convergence_factor, time"),
        plane_filename_tuple=("out2d-PLANE-conv_factor%.2f-t%08.4f.txt", "convergence_factor, time"),
        out_quantities_dict={("REAL", f"q{i}"): f"y_n_gfs[IDX4pt({g}GF, idx3)]" for i, g in enumerate(("UU", "VECU0", "TENDD11")[: cfg["nq"]])},
        enable_BSSN_diagnostics=False,
        enable_psi4_diagnostics=False,
    )
    charecomm.chare_comm_register_C_functions(list_of_CoordSystems=[cs])
    superBcbc.CurviBoundaryConditions_register_C_functions(list_of_CoordSystems=[cs], radiation_BC_fd_order=2)
    superBMoL.register_CFunctions(MoL_method="Euler", rhs_string="", post_rhs_bcs_str="", post_rhs_string="", enable_rfm_precompute=rfm, enable_curviBCs=True)
    xx_tofrom_Cart.register_CFunction_xx_to_Cart(cs)
    rfm_wrapper_functions.register_CFunctions_CoordSystem_wrapper_funcs()
    CPs.write_CodeParameters_h_files(project_dir=d)
    CPs.register_CFunctions_params_commondata_struct_set_to_default()
    copy_files(package="nrpy.infrastructures.superB.superB", filenames_list=["superB.h", "superB_pup_function_prototypes.h"], project_dir=d, subdirectory="superB")
    Bdefines_h.output_BHaH_defines_h(additional_includes=[str(Path("superB") / Path("superB.h"))], project_dir=d, enable_intrinsics=False, enable_rfm_precompute=rfm, fin_NGHOSTS_add_one_for_upwinding_or_KO=cfg.get("add", False))
    superBMakefile.output_CFunctions_function_prototypes_and_construct_Makefile(project_dir=d, project_name="proj", exec_or_library_name="proj", compiler_opt_option="default", addl_CFLAGS=["-fpermissive "], addl_libraries=["-module CkIO"], CC="charmc")


KINDS = {"elliptic": elliptic, "wave": wave, "wavebhah": wavebhah, "maps": maps}


def generate(d, cfg):
    os.makedirs(d, exist_ok=True)
    env = dict(os.environ, XDG_CACHE_HOME=os.path.join(os.environ.get("XDG_CACHE_HOME", d), "sb"), PYTHONHASHSEED="0")
    env["PYTHONPATH"] = os.pathsep.join([p for p in sys.path if p])
    r = subprocess.run([sys.executable, os.path.abspath(__file__), d, json.dumps(cfg)], env=env, capture_output=True, text=True, timeout=900)
    if r.returncode:
        if vf.touches_repo(r.stderr):
            raise vf.RepoError("superB project " + json.dumps(cfg), r.stderr[-3000:])
        raise vf.HarnessError(r.stderr[-3000:])
    return d


def build(d, drivers, nproc=8):
    """Translate the .ci files and compile the project with each driver {exe name: source file}."""
    import charmci

    for name, text in charmci.generate([open(f).read() for f in sorted(glob.glob(os.path.join(d, "*.ci")))]).items():
        vf.write(os.path.join(d, name), text)
    srcs = sorted(glob.glob(os.path.join(d, "**", "*.cpp"), recursive=True)) + [os.path.join(CSRC, "vfcharm.cpp")]
    flags = ["-std=c++17", "-O1", "-g0", "-fpermissive", "-w", "-fno-strict-aliasing", "-ffp-contract=off", "-mavx2", "-mfma", "-I" + d, "-I" + CSRC]
    objs, jobs = [], []
    for i, s in enumerate(srcs + list(drivers.values())):
        o = os.path.join(d, f"o{i}.o")
        objs.append(o)
        jobs.append((["g++", *flags, "-c", s, "-o", o], s))
    from concurrent.futures import ThreadPoolExecutor

    def one(j):
        return subprocess.run(j[0], capture_output=True, text=True, cwd=d), j[1]

    with ThreadPoolExecutor(nproc) as ex:
        for r, s in ex.map(one, jobs):
            if r.returncode:
                msg = r.stderr[-2500:]
                if os.path.realpath(s).startswith(os.path.realpath(d)):
                    raise vf.CompileError(f"{os.path.basename(s)}: {msg}")
                raise vf.HarnessError(f"{s}: {msg}")
    common = objs[: len(srcs)]
    for k, (exe, _) in enumerate(drivers.items()):
        r = subprocess.run(["g++", *common, objs[len(srcs) + k], "-lm", "-o", os.path.join(d, exe)], capture_output=True, text=True)
        if r.returncode:
            raise vf.CompileError("link: " + r.stderr[-2500:])
    return d


def build_bhah(d, nproc=8):
    """Compile the BHaH version."""
    from concurrent.futures import ThreadPoolExecutor

    srcs = sorted(glob.glob(os.path.join(d, "**", "*.c"), recursive=True))
    flags = ["-std=gnu99", "-O1", "-g0", "-w", "-fno-strict-aliasing", "-ffp-contract=off", "-mavx2", "-mfma", "-I" + d]

    def one(k):
        return subprocess.run(["gcc", *flags, "-c", srcs[k], "-o", os.path.join(d, f"b{k}.o")], capture_output=True, text=True)

    with ThreadPoolExecutor(nproc) as ex:
        for k, r in enumerate(ex.map(one, range(len(srcs)))):
            if r.returncode:
                raise vf.CompileError(f"{os.path.basename(srcs[k])}: {r.stderr[-2500:]}")
    r = subprocess.run(["gcc", *[os.path.join(d, f"b{k}.o") for k in range(len(srcs))], "-lm", "-o", os.path.join(d, "ref")], capture_output=True, text=True)
    if r.returncode:
        raise vf.CompileError("link: " + r.stderr[-2500:])
    return d


def parfile(d, out, **values):
    text = open(os.path.join(d, "proj.par")).read()
    for k, v in values.items():
        text, n = re.subn(rf"(?m)^{k}\s*=\s*[^#\n]*", f"{k} = {v} ", text)
        if not n:
            raise vf.HarnessError(f"no parameter {k}")
    return vf.write(out, text)


if __name__ == "__main__":
    c = json.loads(sys.argv[2])
    KINDS[c["kind"]](sys.argv[1], c)
