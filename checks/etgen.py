"""Writes a BSSN thorn the way nrpy's Baikal examples do, with the options given as JSON in argv[1]."""

import importlib
import json
import os
import sys

o = json.loads(sys.argv[1])
infra, th = o["infra"], o["thorn"]
import nrpy.grid as gri
import nrpy.helpers.parallel_codegen as pcg
import nrpy.params as par
from nrpy.helpers.generic import copy_files

L = lambda m: importlib.import_module(f"nrpy.infrastructures.{infra}.{m}")
G = lambda m: getattr(L("general_relativity." + m), "register_CFunction_" + m)
par.set_parval_from_str("Infrastructure", infra)
par.set_parval_from_str("parallel_codegen_enable", True)
parts = ["ADM_to_BSSN", "Ricci_eval", "rhs_eval", "BSSN_constraints", "BSSN_to_ADM", "floor_the_lapse", "enforce_detgammahat_constraint", "T4DD_to_T4UU"]
for m in parts:
    G(m)
par.set_parval_from_str("register_MU_gridfunctions", True)
if "cf" in o:
    par.set_parval_from_str("EvolvedConformalFactor_cf", o["cf"])
par.register_CodeParameter("CCTK_REAL", "etgen", "lapse_floor", "1e-15", add_to_glb_code_params_dict=True)
par.register_CodeParameter("CCTK_INT", "etgen", "FD_order", "4", add_to_glb_code_params_dict=True)
simd, T4 = o["simd"], o["T4"]
kw = dict(thorn_name=th, CoordSystem="Cartesian")
if T4:
    G("T4DD_to_T4UU")(**kw, enable_rfm_precompute=False)
for fd in o["fd"]:
    par.set_parval_from_str("fd_order", fd)
    if o["imp"] == 0:
        G("ADM_to_BSSN")(**kw, fd_order=fd)
        G("Ricci_eval")(**kw, enable_rfm_precompute=False, enable_simd=simd, fd_order=fd)
        if o["con"]:
            G("BSSN_constraints")(**kw, enable_rfm_precompute=False, enable_T4munu=T4, enable_simd=simd, fd_order=fd)
    G("rhs_eval")(**kw, enable_rfm_precompute=False, enable_T4munu=T4, enable_simd=simd, fd_order=fd, LapseEvolutionOption=o["lapse"], ShiftEvolutionOption=o["shift"], enable_KreissOliger_dissipation=o["KO"], enable_CAKO=bool(o["imp"]), enable_CAHD=bool(o["imp"]), enable_SSL=bool(o["imp"]))
G("BSSN_to_ADM")(**kw)
G("floor_the_lapse")(thorn_name=th)
G("enforce_detgammahat_constraint")(**kw, enable_rfm_precompute=False)
if infra == "ETLegacy":
    G("RegisterSlicing")(thorn_name=th)
pcg.do_parallel_codegen()
X = infra == "CarpetX"
if not X:
    L("Symmetry_registration").register_CFunction_Symmetry_registration_oldCartGrid3D(thorn_name=th)
    L("MoL_registration").register_CFunction_MoL_registration(thorn_name=th)
L("boundary_conditions").register_CFunctions(thorn_name=th)
L("zero_rhss").register_CFunction_zero_rhss(thorn_name=th)
proj = o["proj"]
tl = 1 if X else 3
groups = {g.group for g in gri.glb_gridfcs_dict.values()}
storage = f"\nSTORAGE: evol_variables[{tl}]\nSTORAGE: evol_variables_rhs[1]\n" + ("STORAGE: auxevol_variables[1]\n" if "AUXEVOL" in groups else "") + (f"STORAGE: aux_variables[{tl}]\n" if "AUX" in groups else "")
L("schedule_ccl").construct_schedule_ccl(project_dir=proj, thorn_name=th, STORAGE=storage)
s = "X" if X else ""
L("interface_ccl").construct_interface_ccl(project_dir=proj, thorn_name=th, inherits=f"ADMBase{s}" + ("" if X else " Boundary Grid") + (f" TmunuBase{s}" if T4 else ""), USES_INCLUDEs="USES INCLUDE: loop_device.hxx" if X else "USES INCLUDE: Symmetry.h\nUSES INCLUDE: Boundary.h\nUSES INCLUDE: Slicing.h\n", is_evol_thorn=True, enable_NewRad=True)
L("param_ccl").construct_param_ccl(project_dir=proj, thorn_name=th, shares_extends_str="")
L("make_code_defn").output_CFunctions_and_construct_make_code_defn(project_dir=proj, thorn_name=th)
if simd:
    src = os.path.join(proj, th, "src")
    copy_files(package="nrpy.helpers", filenames_list=["simd_intrinsics.h"], project_dir=src, subdirectory="simd")
    f = os.path.join(src, "simd", "simd_intrinsics.h")
    t = open(f).read().replace("REAL_SIMD_ARRAY REAL", "REAL_SIMD_ARRAY CCTK_REAL")
    open(f, "w").write(t)
json.dump({n: dict(group=g.group, rank=g.rank, dim=g.dimension, finf=float(g.f_infinity), ws=float(g.wavespeed)) for n, g in gri.glb_gridfcs_dict.items()}, open(os.path.join(proj, "gfs.json"), "w"))
