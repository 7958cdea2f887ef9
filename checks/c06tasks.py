"""Task functions for C06 (importable by pool workers) and the completion gate."""

import os
import time

import nrpy.c_function as cfc
import nrpy.grid as gri
import nrpy.params as par
import nrpy.helpers.parallel_codegen as pcg
from nrpy.infrastructures.BHaH import griddata_commondata
import nrpy.infrastructures.BHaH.BHaH_defines_h as Bdefines_h

# the generated headers depend on which library modules the script has imported
import nrpy.infrastructures.BHaH.wave_equation.wave_equation_C_codegen_library
from nrpy.infrastructures.BHaH import xx_tofrom_Cart as _xx

GATE = {"dir": None, "timeout": 20.0}


def gate_start(i):
    d = GATE["dir"]
    if d:
        open(os.path.join(d, f"start{i}"), "w").close()


def gate_end(i):
    """Hold the result of task i until the controller releases it."""
    d = GATE["dir"]
    if d:
        t0 = time.time()
        while not os.path.exists(os.path.join(d, f"go{i}")):
            if time.time() - t0 > GATE["timeout"]:
                open(os.path.join(d, "timeout"), "w").close()
                return
            time.sleep(0.002)


def cfun(name, body, **kw):
    cfc.register_CFunction(includes=["BHaH_defines.h"], desc=f"Function {name}.", name=name, params="int *x", body=body, **kw)


def shared():
    """Registrations that several tasks make identically."""
    par.register_CodeParameter("REAL", "shared_mod", "shared_cp", 0.5, commondata=True)
    par.register_param(int, "shared_mod", "shared_param", 5)


def synth0(k):
    gri.register_gridfunctions("gzero", group="EVOL")
    par.register_CodeParameter("REAL", "mod0", "cp0", 1.25, commondata=True, description="d0")
    par.register_param(str, "mod0", "p0", "v0")
    cfun("f0", f"*x = {k};")
    shared()


def synth1(k):
    gri.register_gridfunctions_for_single_rank1("vU", group="EVOL")
    par.register_CodeParameters("int", "mod1", ["cp1a", "cp1b"], [1, 2])
    cfun("f1", f"*x = {k}+1;", subdirectory="sub")
    cfun("f1b", "*x = 7;", include_CodeParameters_h=True)
    shared()


def synth2(k):
    Bdefines_h.register_BHaH_defines("mod2", f"#define MOD2 {k}\n")
    griddata_commondata.register_griddata_commondata("mod2", "int mod2_member", "desc", is_commondata=False)
    griddata_commondata.register_griddata_commondata("mod2", "int mod2_common", "desc", is_commondata=True)
    cfun("f2", "*x = 2;", prefunc="// prefunc of f2\n")
    shared()


def synth3(k):
    gri.register_gridfunctions_for_single_rank2("hDD", symmetry="sym01", group="AUX")
    Bdefines_h.register_BHaH_defines("mod3", "#define MOD3\n")
    griddata_commondata.register_griddata_commondata("mod3", "int mod3_member", is_commondata=False)
    for j in range(3):
        cfun(f"f3_{j}", f"*x = {j};")


def synth_none(k):
    """A task that registers nothing new."""


def wave_rhs(k):
    import nrpy.infrastructures.BHaH.wave_equation.wave_equation_C_codegen_library as wCl

    wCl.register_CFunction_rhs_eval(CoordSystem="Spherical", enable_rfm_precompute=False, enable_simd=False, enable_KreissOliger_dissipation=True, OMP_collapse=1)


def wave_rhs2(k):
    import nrpy.infrastructures.BHaH.wave_equation.wave_equation_C_codegen_library as wCl

    wCl.register_CFunction_rhs_eval(CoordSystem="Cartesian", enable_rfm_precompute=False, enable_simd=False, enable_KreissOliger_dissipation=True, OMP_collapse=1)


def wave_exact(k):
    import nrpy.infrastructures.BHaH.wave_equation.wave_equation_C_codegen_library as wCl

    wCl.register_CFunction_exact_solution_single_Cartesian_point(WaveType="SphericalGaussian", default_sigma=3.0)


def wave_xx(k):
    from nrpy.infrastructures.BHaH import xx_tofrom_Cart

    xx_tofrom_Cart.register_CFunction_xx_to_Cart(CoordSystem="Spherical")
    xx_tofrom_Cart.register_CFunction_xx_to_Cart(CoordSystem="Cartesian")


def wave_xxS(k):
    from nrpy.infrastructures.BHaH import xx_tofrom_Cart

    xx_tofrom_Cart.register_CFunction_xx_to_Cart(CoordSystem="Spherical")


def failing_value(k):
    raise ValueError("injected ValueError")


def failing_runtime(k):
    raise RuntimeError("injected RuntimeError")


def failing_type(k):
    raise TypeError("injected TypeError")


def failing_own(k):
    cfun("ffail", "*x = 0;")
    raise ArithmeticError("injected failure after registering something")


def run(i, which, k):
    gate_start(i)
    try:
        globals()[which](k)
    finally:
        gate_end(i)
    return pcg.NRPyEnv()


class Holder:
    """A nested callable, as used by registration methods of classes."""

    @staticmethod
    def run(i, which, k):
        return run(i, which, k)


def submit(i, which, k, nested):
    """The registration idiom used throughout the library."""
    args = {"i": i, "which": which, "k": k}
    if pcg.pcg_registration_phase():
        pcg.register_func_call("c06tasks.run", args)
        return None
    return run(i, which, k)
