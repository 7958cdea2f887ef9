"""Enumerates small registries of gridfunctions, parameters and scheduled functions and writes their
thorns with nrpy's generators; used by C24 in forked processes."""

import importlib
import itertools
import os

import nrpy.c_function as cfc
import nrpy.grid as gri
import nrpy.params as par

# name -> (how to register, its components with the spatial indices that flip the sign)
EVOL = ["phi", "vecU", "symDD", "genDU"]
REST = ["src", "TUU", "JU", "ham", "momU"]
FINF = {"phi": 1.25, "vecU": 0.0, "symDD": [0.5, 0.0, 0.0, 1.5, 0.0, 2.5], "genDU": 3.0}
WS = {"phi": 0.75, "vecU": 2.0, "symDD": 1.0, "genDU": [1.0, 1.5, 2.0, 2.5, 3.0, 3.5, 4.0, 4.5, 5.0]}
GROUP = {"phi": "EVOL", "vecU": "EVOL", "symDD": "EVOL", "genDU": "EVOL", "src": "AUXEVOL", "TUU": "AUXEVOL", "JU": "AUXEVOL", "ham": "AUX", "momU": "AUX"}
RANK = {"phi": 0, "src": 0, "ham": 0, "vecU": 1, "momU": 1, "JU": 1, "symDD": 2, "TUU": 2, "genDU": 2}
DIM = {"TUU": 4, "JU": 4}
SYM = {"symDD": "sym01", "TUU": "sym01"}


def components(n):
    """[(name, parities)]; a component changes sign once per index along a reflected direction"""
    d = DIM.get(n, 3)
    idx = [()] if RANK[n] == 0 else itertools.product(range(d), repeat=RANK[n])
    out = []
    for i in idx:
        if n in SYM and i[0] > i[1]:
            continue
        s = [1, 1, 1]
        for k in i:
            k -= d - 3
            if k >= 0:
                s[k] = -s[k]
        out.append((n + "".join(map(str, i)), tuple(s)))
    return out


def register(n, infra):
    kw = dict(group=GROUP[n])
    if GROUP[n] == "EVOL":
        kw.update(f_infinity=FINF[n], wavespeed=WS[n])
    if RANK[n] == 0:
        gri.register_gridfunctions(n, **kw)
    elif RANK[n] == 1:
        gri.register_gridfunctions_for_single_rank1(n, dimension=DIM.get(n, 3), **kw)
    else:
        gri.register_gridfunctions_for_single_rank2(n, symmetry=SYM.get(n), dimension=DIM.get(n, 3), **kw)


def reset(infra):
    par.set_parval_from_str("Infrastructure", infra)
    gri.glb_gridfcs_dict.clear()
    cfc.CFunction_dict.clear()
    par.glb_code_params_dict.clear()


def mod(infra, m):
    return importlib.import_module(f"nrpy.infrastructures.{infra}.{m}")


def write_thorn(infra, proj, th, storage="", inherits="", evol=True, shares="", extra=None, newrad=True):
    x = infra == "CarpetX"
    mod(infra, "schedule_ccl").construct_schedule_ccl(project_dir=proj, thorn_name=th, STORAGE=storage, extra_schedule_bins_entries=extra)
    inc = "USES INCLUDE: loop_device.hxx" if x else "USES INCLUDE: Symmetry.h\nUSES INCLUDE: Boundary.h\n"
    mod(infra, "interface_ccl").construct_interface_ccl(project_dir=proj, thorn_name=th, inherits=inherits, USES_INCLUDEs=inc if evol else "", is_evol_thorn=evol, enable_NewRad=evol and newrad)
    got = mod(infra, "param_ccl").construct_param_ccl(project_dir=proj, thorn_name=th, shares_extends_str=shares)
    mod(infra, "make_code_defn").output_CFunctions_and_construct_make_code_defn(project_dir=proj, thorn_name=th)
    return got


def gridfunctions(infra, names, proj):
    """an evolution thorn T with these gridfunctions and a thorn U that inherits them"""
    reset(infra)
    for n in names:
        register(n, infra)
    par.register_CodeParameter("CCTK_INT", "etreg", "FD_order", "4", add_to_glb_code_params_dict=True)
    if infra == "ETLegacy":
        mod(infra, "Symmetry_registration").register_CFunction_Symmetry_registration_oldCartGrid3D(thorn_name="T")
        mod(infra, "MoL_registration").register_CFunction_MoL_registration(thorn_name="T")
    mod(infra, "boundary_conditions").register_CFunctions(thorn_name="T")
    mod(infra, "zero_rhss").register_CFunction_zero_rhss(thorn_name="T")
    write_thorn(infra, proj, "T", inherits="Boundary Grid" if infra == "ETLegacy" else "")
    write_thorn(infra, proj, "U", inherits="T", evol=False)


PARAMS = [("CCTK_REAL", "preal", 0.0625), ("CCTK_INT", "pint", -3), ("REAL", "pplain", 2.5)]


def params(infra, sets, proj):
    """functions f, g of thorn T and h of thorn U; sets: the parameters each uses"""
    reset(infra)
    for t, n, v in PARAMS:
        par.register_CodeParameter(t, "etreg", n, v, add_to_glb_code_params_dict=True)
    for (fn, th), s in zip((("f", "T"), ("g", "T"), ("h", "U")), sets):
        cfc.register_CFunction(subdirectory=th, includes=["cctk.h"], desc="test", cfunc_type="void", name=fn, params="CCTK_ARGUMENTS", body="(void)cctkGH;\n", ET_thorn_name=th, ET_schedule_bins_entries=[("BASEGRID", "\nschedule FUNC_NAME at BASEGRID\n{\n  LANG: C\n} \"x\"\n")], ET_current_thorn_CodeParams_used=[PARAMS[k][1] for k in s] or None)
    return [sorted(write_thorn(infra, proj, th, evol=False)) for th in ("T", "U")]


BINS = [[], ["STARTUP"], ["BaseGrid"], ["CCTK_INITIAL"], ["MoL_CalcRHS", "ODESolvers_RHS"], ["ANALYSIS"], ["STARTUP", "STARTUP"]]
EXTRA = [[], ["STARTUP"], ["Poststep", "Terminate"], ["CCTK_INITIAL"]]


def entry(kind, b, k):
    return f"\nschedule {kind} at {b} as slot{k}\n{{\n  LANG: C\n}} \"x\"\n"


def schedule(infra, pick, extra, proj):
    """functions f, g of T and h of U with the bins BINS[pick[i]]"""
    reset(infra)
    want = {"T": [], "U": []}
    for (fn, th), p in zip((("f", "T"), ("g", "T"), ("h", "U")), pick):
        ents = []
        for k, b in enumerate(BINS[p]):
            ents.append((b, entry("FUNC_NAME", b, k)))
            want[th].append((fn, b, f"slot{k}"))
        cfc.register_CFunction(subdirectory=th, includes=["cctk.h"], desc="test", cfunc_type="void", name=fn, params="CCTK_ARGUMENTS", body="(void)cctkGH;\n", ET_thorn_name=th, ET_schedule_bins_entries=ents or None)
    ex = [(b, entry("GROUP other", b, 5 + k)) for k, b in enumerate(EXTRA[extra])]
    want["T"] += [("other", b, f"slot{5 + k}") for k, b in enumerate(EXTRA[extra])]
    write_thorn(infra, proj, "T", evol=False, extra=ex or None)
    write_thorn(infra, proj, "U", evol=False)
    return want
