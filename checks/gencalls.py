"""A menu of generation calls covering the options that touch process-global state."""

import sympy as sp

import nrpy.c_function as cfc
import nrpy.finite_difference as fin
import nrpy.grid as gri
import nrpy.indexedexp as ixp
import nrpy.params as par
from nrpy.c_codegen import c_codegen
from nrpy.helpers.cached_functions import cached_simplify
from nrpy.helpers.cse_preprocess_postprocess import cse_preprocess
from nrpy.helpers.loop import loop


def setup():
    par.set_parval_from_str("Infrastructure", "BHaH")
    par.set_parval_from_str("fd_order", 4)
    gri.glb_gridfcs_dict.clear()
    gri.register_gridfunctions("uu", group="EVOL")
    gri.register_gridfunctions("aux", group="AUX")
    gri.register_gridfunctions_for_single_rank1("vetU", group="EVOL")
    gri.register_gridfunctions_for_single_rank2("hDD", symmetry="sym01", group="EVOL")


S = sp.Symbol
a, b, c, x, y, z = sp.symbols("a b c x y z")
e1 = [a * b + sp.sin(a * b) ** 2 / 3 + sp.Rational(2, 7) * c, sp.sqrt(a * b + c) - c**3 + x * y * z, (a + b) * (c + x) / (y**2 + 1)]
fd1 = [S("uu_dDD01") + S("uu_dD0") * S("hDD_dD012"), S("hDD_dDD0022") - S("uu_dKOD1") * sp.Rational(1, 3), S("aux") * S("uu")]
fd2 = [S("uu_dD2") ** 2 + S("vetU0"), S("hDD_dD110") / (1 + S("uu") ** 2)]
fdup = [S("vetU0") * S("uu_dupD0") + S("vetU2") * S("hDD_dupD122"), S("vetU1") * S("uu_dD1")]
vet = [S("vetU0"), S("vetU1"), S("vetU2")]
o3 = ["r0", "r1", "r2"]
o2 = ["r0", "r1"]


def fdfun(exprs, outs, **kw):
    body = c_codegen(exprs, outs, enable_fd_codegen=True, enable_fd_functions=True, **kw)
    return fin.construct_FD_functions_prefunc() + "\n// ----\n" + body


def infra(name, fn):
    old = par.parval_from_str("Infrastructure")
    gfs = dict(gri.glb_gridfcs_dict)
    try:
        par.set_parval_from_str("Infrastructure", name)
        gri.glb_gridfcs_dict.clear()
        gri.register_gridfunctions("uu", group="EVOL")
        gri.register_gridfunctions_for_single_rank2("hDD", symmetry="sym01", group="EVOL")
        return fn()
    finally:
        par.set_parval_from_str("Infrastructure", old)
        gri.glb_gridfcs_dict.clear()
        gri.glb_gridfcs_dict.update(gfs)


def with_order(n, fn):
    old = par.parval_from_str("fd_order")
    par.set_parval_from_str("fd_order", n)
    try:
        return fn()
    finally:
        par.set_parval_from_str("fd_order", old)


def cfunction():
    f = cfc.CFunction(includes=["BHaH_defines.h"], prefunc="// pre\n", desc="A function.", cfunc_type="void", name="fn", params="const int i, double *o", include_CodeParameters_h=True, body="o[i]=a;")
    return f.full_function + f.function_prototype


def names():
    return sorted(MENU)


CORE = ["scalar", "simd_more", "fd_inline", "fd_inline6", "fd_functions", "fd_functions_simd", "fd_functions_up", "fd_functions_noderiv", "fd_golden", "read_only", "et", "simplify"]


MENU = {
    "scalar": lambda: c_codegen(e1, o3),
    "scalar_again_reversed": lambda: c_codegen(e1[::-1], o3, cse_varprefix="pre", include_braces=False, verbose=False),
    "no_cse": lambda: c_codegen(e1, o3, enable_cse=False),
    "preprocess": lambda: c_codegen(e1, o3, enable_cse_preprocess=True),
    "float": lambda: c_codegen(e1, o3, fp_type="float"),
    "long_double": lambda: c_codegen([e1[0]], ["r0"], fp_type="long double", fp_type_alias="TYPE"),
    "simd": lambda: c_codegen(e1, o3, enable_simd=True),
    "simd_more": lambda: c_codegen(e1, o3, enable_simd=True, simd_find_more_subs=True, simd_find_more_FMAsFMSs=True, enable_cse_preprocess=True),
    "subst": lambda: c_codegen(e1, o3, postproc_substitution_dict={"a": "_new"}),
    "fd_inline": lambda: c_codegen(fd1, o3, enable_fd_codegen=True),
    "fd_inline6": lambda: with_order(6, lambda: c_codegen(fd2, o2, enable_fd_codegen=True)),
    "fd_simd": lambda: c_codegen(fd1, o3, enable_fd_codegen=True, enable_simd=True),
    "fd_golden": lambda: c_codegen(fd1, o3, enable_fd_codegen=True, enable_GoldenKernels=True),
    "fd_functions": lambda: fdfun(fd1, o3),
    "fd_functions2": lambda: fdfun(fd2, o2),
    "fd_functions_simd": lambda: fdfun(fd2, o2, enable_simd=True),
    "fd_functions_up": lambda: fdfun(fdup, o2, upwind_control_vec=vet),
    "fd_functions_noderiv": lambda: fdfun([S("uu") * a, S("hDD02")], o2),
    "fd_up": lambda: c_codegen(fdup, o2, enable_fd_codegen=True, upwind_control_vec=vet),
    "read_only": lambda: c_codegen([S("uu") * S("hDD02") + a], ["r0"], automatically_read_gf_data_from_memory=True),
    "mem012": lambda: c_codegen(fd2, o2, enable_fd_codegen=True, mem_alloc_style="012"),
    "et": lambda: infra("ETLegacy", lambda: fdfun(fd2[1:], ["r0"])),
    "carpetx": lambda: infra("CarpetX", lambda: fdfun(fd2[1:], ["r0"])),
    "preproc_direct": lambda: repr(cse_preprocess(e1, prefix="zz")),
    "simplify": lambda: sp.srepr(cached_simplify(sp.sin(x) ** 2 + sp.cos(x) ** 2 + y * (z + 1) - y * z)),
    "loop": lambda: loop(["i2", "i1"], ["0", "0"], ["N2", "N1"], ["1", "1"], ["#pragma omp parallel for", ""], loop_body="// body\n"),
    "cfunction": cfunction,
}

ARGS = {"e1": e1, "fd1": fd1, "fd2": fd2, "fdup": fdup, "vet": vet, "o3": o3, "o2": o2}


def args_snapshot():
    return repr({k: [sp.srepr(v) if isinstance(v, sp.Basic) else v for v in l] for k, l in ARGS.items()})


def registry_snapshot():
    return repr(
        (
            {k: (v.py_type.__name__, v.module, v.value) for k, v in par.glb_params_dict.items()},
            {k: (v.cparam_type, v.module, str(v.defaultvalue)) for k, v in par.glb_code_params_dict.items()},
            {k: (type(v).__name__, v.group, v.rank, v.dimension) for k, v in gri.glb_gridfcs_dict.items()},
            sorted(cfc.CFunction_dict),
        )
    )
