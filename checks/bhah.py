"""Generates small BHaH projects through nrpy's public interface, for the checks that run them.

Call only in a fresh forked child: nrpy's registries are process-wide.
"""

import glob
import os
import re

import sympy as sp

import vf

import nrpy.c_function as cfc
import nrpy.grid as gri
import nrpy.params as par
import nrpy.reference_metric as refmetric

COORDS = (
    "SinhSymTP",
    "SymTP",
    "SinhCylindricalv2n2",
    "SinhCylindrical",
    "SinhSphericalv2n2",
    "SinhSpherical",
    "Spherical",
    "SinhCartesian",
    "Cartesian",
    "Cylindrical",
    "LWedgeHSinhSph",
    "UWedgeHSinhSph",
    "RingHoleySinhSpherical",
    "HoleySinhSpherical",
)


def family(cs):
    if "Wedge" in cs:
        return "wedge"
    if cs.startswith("RingHoley"):
        return "ring"
    if "Spherical" in cs:
        return "spherical"
    if "SymTP" in cs:
        return "symtp"
    if "Cylindrical" in cs:
        return "cylindrical"
    return "cartesian"


def start(fd_order=4, fp="double"):
    par.set_parval_from_str("Infrastructure", "BHaH")
    par.set_parval_from_str("fp_type", fp)
    import nrpy.finite_difference  # noqa: F401  pylint: disable=import-outside-toplevel,unused-import
    import nrpy.helpers.parallel_codegen  # noqa: F401  pylint: disable=import-outside-toplevel,unused-import

    par.set_parval_from_str("parallel_codegen_enable", False)
    par.set_parval_from_str("fd_order", fd_order)


def finish(d, name="proj", rfm_precompute=False, simd=False, add_ghost=False, wrappers=True, defaults=True):
    """Write headers, every registered function and the Makefile below d; returns the C files."""
    from nrpy.infrastructures.BHaH import BHaH_defines_h as Bd  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH import CodeParameters as CPs  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH import Makefile_helpers as Mk  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH import rfm_wrapper_functions as rw  # pylint: disable=import-outside-toplevel

    if wrappers:
        rw.register_CFunctions_CoordSystem_wrapper_funcs()
    CPs.write_CodeParameters_h_files(project_dir=d)
    if defaults:
        CPs.register_CFunctions_params_commondata_struct_set_to_default()
    Bd.output_BHaH_defines_h(project_dir=d, enable_intrinsics=simd, enable_rfm_precompute=rfm_precompute, fin_NGHOSTS_add_one_for_upwinding_or_KO=add_ghost)
    Mk.output_CFunctions_function_prototypes_and_construct_Makefile(project_dir=d, project_name=name, create_lib="main" not in cfc.CFunction_dict, static_lib="main" not in cfc.CFunction_dict)
    return sorted(glob.glob(os.path.join(d, "**", "*.c"), recursive=True))


def compile_project(d, sources, driver, flags=("-fopenmp",), opt="-O1", exe="t", libs=("-lm",)):
    f = vf.write(os.path.join(d, "verif_driver.c"), driver)
    return vf.cc(list(sources) + [f], os.path.join(d, exe), flags=[opt, "-I" + d, *flags], base=["-std=gnu99", "-w", "-ffp-contract=off"], libs=list(libs))


def ccode(expr):
    """C text of a sympy expression, written without nrpy."""
    return re.sub(r"\bsign\(", "vsign(", sp.ccode(expr))


def geometry_c(cs, suffix=""):
    """C functions giving, from the coordinates alone, the Cartesian position, its Jacobian
    dx^a/dxx^i, and the scale factors (signed, by smooth continuation)."""
    rfm = refmetric.reference_metric[cs]
    o = ""
    o += f"static void ref_cart{suffix}(const commondata_struct *commondata, const params_struct *params, double xx0, double xx1, double xx2, double X[3]) {{\n#include \"set_CodeParameters.h\"\n"
    for a in range(3):
        o += f"X[{a}] = {ccode(rfm.xx_to_Cart[a])};\n"
    o += "}\n"
    o += f"static void ref_jac{suffix}(const commondata_struct *commondata, const params_struct *params, double xx0, double xx1, double xx2, double J[3][3], double h[3]) {{\n#include \"set_CodeParameters.h\"\n"
    for a in range(3):
        for i in range(3):
            o += f"J[{a}][{i}] = {ccode(sp.diff(rfm.xx_to_Cart[a], rfm.xx[i]))};\n"
    for i in range(3):
        o += f"h[{i}] = {ccode(rfm.scalefactor_orthog[i])};\n"
    o += "}\n"
    return o


def register_bc_gfs():
    """One evolved gridfunction of each parity type (plus an auxevol one)."""
    gri.register_gridfunctions("su", group="EVOL", wavespeed=1.3, f_infinity=0.7)
    gri.register_gridfunctions_for_single_rank1("vecU", group="EVOL")
    gri.register_gridfunctions_for_single_rank2("tenDD", symmetry="sym01", group="EVOL")


def grid_and_bcs(cs, rad_order=2, size=4.0, bcs=True, mol_done=False, **kw):
    from nrpy.infrastructures.BHaH import numerical_grids_and_timestep as ng  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH.CurviBoundaryConditions import CurviBoundaryConditions as cbc  # pylint: disable=import-outside-toplevel

    if not mol_done:
        from nrpy.infrastructures.BHaH.MoLtimestepping import MoL  # pylint: disable=import-outside-toplevel

        MoL.register_CFunctions(register_MoL_step_forward_in_time=False)
    systems = [cs] if isinstance(cs, str) else list(cs)
    par.set_parval_from_str("CoordSystem_to_register_CodeParameters", systems[0] if len(systems) == 1 else "All")
    ng.register_CFunctions(list_of_CoordSystems=systems, list_of_grid_physical_sizes=[size] * len(systems), Nxx_dict={c: [4, 4, 4] for c in systems}, enable_CurviBCs=bcs, **kw)
    if bcs:
        cbc.CurviBoundaryConditions_register_C_functions(list_of_CoordSystems=systems, radiation_BC_fd_order=rad_order)
