"""C30: the evolution, constraint and setup kernels of a BHaH program compute the equations on the grid.

The wave-equation, conformally flat elliptic and BSSN kernels (right-hand sides with every
dissipation, damping and lapse option, Ricci tensor, constraints, determinant constraint, auxiliary
fields, initial data, norms) are generated for every coordinate system of a list, with every
combination of reference-metric precomputation, SIMD and shared finite-difference functions,
compiled and run on small grids of rough data. Oracle: the equations (without precomputation)
evaluated at every interior point with explicit stencils; volume elements and positions from the map
to Cartesian coordinates. Ghost zones must stay as they were.
"""

import itertools
import math
import os

import mpmath as mp
import sympy as sp

import bhah
import tensors as tn
import vf
from kernels import Project

import nrpy.params as par
import nrpy.reference_metric as refmetric

R3 = range(3)
SCRATCH = os.environ["VF_SCRATCH"]
S = lambda n: sp.Symbol(n, real=True)


def dissipation(cs, name, strength):
    """strength * sum_k ReU[k] * (Kreiss-Oliger derivative along k)"""
    import re  # pylint: disable=import-outside-toplevel

    rfm = refmetric.reference_metric[cs]
    g = re.fullmatch(r"([A-Za-z]+)(\d*)", name)
    return sum(strength * S(f"{g[1]}_dKOD{g[2]}{k}") * rfm.ReU[k] for k in R3)


def metric_arg(P):
    return "&rfmstruct" if P.pre else "xx"


# ---- wave equation ------------------------------------------------------------------------------
def wave(cs, d, pre, simd, ko, fd, collapse):
    P = Project(cs, d, fd, pre, simd)
    from nrpy.infrastructures.BHaH import xx_tofrom_Cart  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH.wave_equation import wave_equation_C_codegen_library as w  # pylint: disable=import-outside-toplevel
    from nrpy.equations.wave_equation.WaveEquationCurvilinear_RHSs import WaveEquationCurvilinear_RHSs  # pylint: disable=import-outside-toplevel

    kind = ("SphericalGaussian", "PlaneWave")[(pre + simd + ko) % 2]
    w.register_CFunction_exact_solution_single_Cartesian_point(WaveType=kind, default_sigma=1.3, default_k0=0.4, default_k1=-0.7, default_k2=0.9)
    w.register_CFunction_initial_data(OMP_collapse=collapse)
    xx_tofrom_Cart.register_CFunction_xx_to_Cart(CoordSystem=cs)
    w.register_CFunction_rhs_eval(CoordSystem=cs, enable_rfm_precompute=pre, enable_simd=simd, enable_KreissOliger_dissipation=ko, OMP_collapse=collapse)
    P.sets = {"wavespeed": 1.6, "KreissOliger_diss_strength": 0.37, "time": 0.21, "Cart_originx": 0.15, "Cart_originy": -0.25, "Cart_originz": 0.35}
    P.fill()
    P.nan("rh", "NUM_EVOL_GFS")
    P.call(f"rhs_eval(&commondata, params, {metric_arg(P)}, y, rh);")
    P.dump("rh", "EVOL", "rhs:")
    P.call("initial_data(&commondata, gd);")
    P.dump("y", "EVOL", "id:")
    err = P.run()
    if err:
        return [("run", err)], 0
    r = WaveEquationCurvilinear_RHSs(cs, False)
    ex = {"uu": r.uu_rhs, "vv": r.vv_rhs}
    if ko:
        ex = {g: e + dissipation(cs, g, S("KreissOliger_diss_strength")) for g, e in ex.items()}
    probs, n = P.compare("wave:rhs_eval", ex, out="rhs:")
    probs += P.untouched("wave:rhs_eval", ex, "rhs:")
    # initial data: the exact solution at the Cartesian position of each point
    rfm = refmetric.reference_metric[cs]
    k = [P.par.get(f"kk{q}", 0) for q in R3]
    c, t = P.par["wavespeed"], P.par["time"]
    for ijk in P.every()[::5]:
        pt = P.point(ijk)
        X = [float(tn.ev(rfm.xx_to_Cart[q], pt, {})) + P.par[f"Cart_origin{'xyz'[q]}"] for q in R3]
        if kind == "PlaneWave":
            kn = math.sqrt(sum(q * q for q in k))
            ph = sum(a * b for a, b in zip(k, X)) / kn - c * t
            want = (math.sin(ph) + 2, -c * math.cos(ph))
        else:
            s, rr = P.par["sigma"], math.sqrt(sum(q * q for q in X))
            f = lambda u: math.exp(-(u * u) / (2 * s * s))  # noqa: E731
            df = lambda u: -u / (s * s) * f(u)  # noqa: E731
            # ((r-ct) f(r-ct) + (r+ct) f(r+ct)) / r, about 2
            g = lambda u: u * f(u)  # noqa: E731
            dg = lambda u: f(u) + u * df(u)  # noqa: E731
            want = ((g(rr - c * t) + g(rr + c * t)) / rr + 2, c * (dg(rr + c * t) - dg(rr - c * t)) / rr)
        for gname, wv in zip(("uu", "vv"), want):
            v = P.data["id:" + gname][P.at(ijk)]
            n += 1
            if not abs(v - wv) <= 1e-9 * (1 + abs(wv)) + 1e-14 * sum(abs(q) for q in X):  # the phase is rounded
                probs.append((f"wave:initial_data:{gname}", f"{kind}: {gname} = {v!r} at {X}, t = {t}; the exact solution is {wv!r}"))
                return probs, n
    return probs, n


# ---- conformally flat elliptic solver -----------------------------------------------------------
PUNC = {"bare_mass_0": 0.62, "bare_mass_1": 0.35, "zPunc": 1.7, "P0_x": 0.11, "P0_y": -0.23, "P0_z": 0.05, "P1_x": -0.31, "P1_y": 0.13, "P1_z": 0.21, "S0_x": 0.07, "S0_y": 0.19, "S0_z": -0.17, "S1_x": 0.29, "S1_y": -0.03, "S1_z": 0.41}


def background(X, p):
    """1 + m/2r summed over two punctures at +-zPunc on the z axis"""
    return 1 + sum(p[f"bare_mass_{s}"] / (2 * math.sqrt(X[0] ** 2 + X[1] ** 2 + (X[2] - z) ** 2)) for s, z in ((0, p["zPunc"]), (1, -p["zPunc"])))


def elliptic(cs, d, pre, simd, fd, collapse):
    P = Project(cs, d, fd, pre, simd)
    from nrpy.infrastructures.BHaH.nrpyelliptic import conformally_flat_C_codegen_library as w  # pylint: disable=import-outside-toplevel
    from nrpy.equations.nrpyelliptic.ConformallyFlat_RHSs import HyperbolicRelaxationCurvilinearRHSs  # pylint: disable=import-outside-toplevel
    from nrpy.equations.nrpyelliptic.ConformallyFlat_SourceTerms import compute_psi_background_and_ADD_times_AUU  # pylint: disable=import-outside-toplevel

    w.register_CFunction_initial_guess_single_point()
    w.register_CFunction_initial_guess_all_points(OMP_collapse=collapse)
    w.register_CFunction_auxevol_gfs_single_point(CoordSystem=cs)
    w.register_CFunction_auxevol_gfs_all_points(OMP_collapse=collapse)
    w.register_CFunction_variable_wavespeed_gfs_all_points(CoordSystem=cs)
    w.register_CFunction_initialize_constant_auxevol()
    w.register_CFunction_compute_L2_norm_of_gridfunction(CoordSystem=cs)
    w.register_CFunction_check_stop_conditions()
    w.register_CFunction_rhs_eval(CoordSystem=cs, enable_rfm_precompute=pre, enable_simd=simd, OMP_collapse=collapse)
    w.register_CFunction_compute_residual_all_points(CoordSystem=cs, enable_rfm_precompute=pre, enable_simd=simd, OMP_collapse=collapse)
    P.sets = dict(PUNC, eta_damping=1.9, MINIMUM_GLOBAL_WAVESPEED=0.6, dt=0.013)
    P.fill()
    P.nan("rh", "NUM_EVOL_GFS")
    P.nan("dg", "NUM_EVOL_GFS + 1")
    P.call(f"rhs_eval(&commondata, params, {metric_arg(P)}, ax, y, rh);")
    P.dump("rh", "EVOL", "rhs:")
    P.call(f"compute_residual_all_points(&commondata, params, {metric_arg(P)}, ax, y, dg);")
    P.dump("dg", ["residual_H"], "diag:")
    P.call("initialize_constant_auxevol(&commondata, gd);")
    P.dump("ax", "AUXEVOL", "aux:")
    P.nan("y", "NUM_EVOL_GFS")
    P.call("initial_data(&commondata, gd);")
    P.dump("y", "EVOL", "id:")
    P.call("fill(rh, 5, -0.7, 1.9); fill(rh + ntot, 77, -0.2, 1.1);")
    for R in ("1e3", "2.5"):
        for gfn in ("0", "1"):
            P.call(f"value(compute_L2_norm_of_gridfunction(&commondata, gd, {R}, {gfn}, rh));")
    P.call("put(rh, 2 * ntot);")
    # stop conditions: every order of iteration count and residual with respect to their limits
    P.call("for (int a = -1; a <= 1; a++) for (int b = -1; b <= 1; b++) { commondata.nn = 7; commondata.nn_max = 7 - a; commondata.log10_current_residual = -3.0; commondata.log10_residual_tolerance = -3.0 - b; commondata.stop_relaxation = false; check_stop_conditions(&commondata, gd); value(commondata.stop_relaxation); }")
    err = P.run()
    if err:
        return [("run", err)], 0
    r = HyperbolicRelaxationCurvilinearRHSs(cs, False)
    ex = {"uu": r.uu_rhs, "vv": r.vv_rhs}
    probs, n = P.compare("elliptic:rhs_eval", ex, out="rhs:")
    probs += P.untouched("elliptic:rhs_eval", ex, "rhs:")
    p, m = P.compare("elliptic:residual", {"residual_H": r.residual}, out="diag:")
    probs, n = probs + p + P.untouched("elliptic:residual", ["residual_H"], "diag:"), n + m
    rfm = refmetric.reference_metric[cs]
    J = sp.Matrix(3, 3, lambda a, i: sp.diff(rfm.xx_to_Cart[a], rfm.xx[i]))
    A2 = compute_psi_background_and_ADD_times_AUU(cs)[1]
    for ijk in P.every():
        pt, memo = P.point(ijk), {}
        X = [float(tn.ev(rfm.xx_to_Cart[q], pt, memo)) for q in R3]
        for g, wv in (("psi_background", background(X, PUNC)), ("ADD_times_AUU", float(mp.re(tn.ev(A2, pt, memo))))):
            v = P.data["aux:" + g][P.at(ijk)]
            n += 1
            if not abs(v - wv) <= 1e-8 * (1 + abs(wv)) and max(abs(q) for q in X) > 1e-8:
                return probs + [(f"elliptic:{g}", f"{g} = {v!r} at {X}, two punctures have {wv!r}")], n
        for g in ("uu", "vv"):
            if P.data["id:" + g][P.at(ijk)] != 0.0:
                return probs + [(f"elliptic:guess:{g}", f"initial guess {g} = {P.data['id:' + g][P.at(ijk)]!r} at {ijk}, documented as zero")], n
    vol, rad = {}, {}
    for ijk in P.interior():
        pt, memo = P.point(ijk), {}
        Jn = [[float(tn.ev(J[a, i], pt, memo)) for i in R3] for a in R3]
        X = [float(tn.ev(rfm.xx_to_Cart[q], pt, memo)) for q in R3]
        rad[ijk] = math.sqrt(sum(q * q for q in X))
        vol[ijk] = abs(float(mp.det(mp.matrix(Jn))))
        ds = [math.sqrt(sum(Jn[a][i] ** 2 for a in R3)) * abs(P.par[f"dxx{i}"]) for i in R3]
        wv, v = 0.6 * min(ds) / 0.013, P.data["aux:variable_wavespeed"][P.at(ijk)]
        n += 1
        if not abs(v - wv) <= 1e-9 * (1 + abs(wv)):
            return probs + [("elliptic:variable_wavespeed", f"variable_wavespeed = {v!r} at {ijk}, MINIMUM_GLOBAL_WAVESPEED * (smallest proper spacing)/dt = {wv!r}")], n
    norms, f, stops = P.rest[:4], P.rest[4:-9], P.rest[-9:]
    ntot = len(f) // 2
    for q, (R, gfn) in enumerate(itertools.product((1e3, 2.5), (0, 1))):
        pts = [p for p in vol if rad[p] < R]
        if not pts or any(abs(rad[p] - R) < 1e-9 for p in vol):
            continue
        wv = math.log10(1e-16 + math.sqrt(sum(f[gfn * ntot + P.at(p)] ** 2 * vol[p] for p in pts) / sum(vol[p] for p in pts)))
        n += 1
        if not abs(norms[q] - wv) <= 1e-10:
            probs.append(("elliptic:L2", f"compute_L2_norm_of_gridfunction within {R} = {norms[q]!r}; the volume-weighted norm is {wv!r}"))
            break
    want = [float(a >= 0 or b < 0) for a in (-1, 0, 1) for b in (-1, 0, 1)]
    n += 9
    if list(stops) != want:
        probs.append(("elliptic:stop", f"stop conditions {list(stops)}, expected {want}"))
    return probs, n


# ---- BSSN ---------------------------------------------------------------------------------------
def bssn(cs, d, pre, simd, fd, o):
    P = Project(cs, d, fd, pre, simd, o["cf"])
    from nrpy.infrastructures.BHaH.general_relativity import BSSN_C_codegen_library as w  # pylint: disable=import-outside-toplevel
    from nrpy.equations.general_relativity.BSSN_constraints import BSSN_constraints  # pylint: disable=import-outside-toplevel
    from nrpy.equations.general_relativity.BSSN_gauge_RHSs import BSSN_gauge_RHSs  # pylint: disable=import-outside-toplevel
    from nrpy.equations.general_relativity.BSSN_quantities import BSSN_quantities  # pylint: disable=import-outside-toplevel
    from nrpy.equations.general_relativity.BSSN_RHSs import BSSN_RHSs  # pylint: disable=import-outside-toplevel
    import re  # pylint: disable=import-outside-toplevel

    fdf, rb, T4 = o["fdf"], o["rb"], o["T4"]
    kw = dict(CoordSystem=cs, enable_rfm_precompute=pre, enable_fd_functions=fdf, OMP_collapse=o["collapse"])
    w.register_CFunction_rhs_eval(**kw, enable_RbarDD_gridfunctions=rb, enable_T4munu=T4, enable_simd=simd, LapseEvolutionOption=o["lapse"], ShiftEvolutionOption=o["shift"], enable_KreissOliger_dissipation=o["KO"], KreissOliger_strength_gauge=0.23, KreissOliger_strength_nongauge=0.41, enable_CAKO=o["CAKO"], enable_CAHD=o["CAHD"], enable_SSL=o["SSL"])
    if rb:
        w.register_CFunction_Ricci_eval(**kw, enable_simd=simd)
    w.register_CFunction_constraints(**kw, enable_RbarDD_gridfunctions=rb, enable_T4munu=T4, enable_simd=simd)
    w.register_CFunction_enforce_detgammabar_equals_detgammahat(**kw)
    if o["CAHD"]:
        w.register_CFunction_cahdprefactor_auxevol_gridfunction([cs])
    P.sets = {"eta": 1.7, "SSL_Gaussian_prefactor": 0.83, "C_CAHD": 0.19, "CFL_FACTOR": 0.43}
    P.fill()
    m_ = metric_arg(P)
    P.nan("rh", "NUM_EVOL_GFS")
    P.nan("dg", "NUM_AUX_GFS")
    P.call(f"rhs_eval(&commondata, params, {m_}, ax, y, rh);")
    P.dump("rh", "EVOL", "rhs:")
    P.call(f"constraints_eval(&commondata, params, {m_}, y, ax, dg);")
    P.dump("dg", ["H", "MSQUARED"], "diag:")
    if o["CAHD"]:
        P.call("cahdprefactor_auxevol_gridfunction(&commondata, params, xx, ax);")
        P.dump("ax", ["cahdprefactor"], "aux:")
    rnames = [f"RbarDD{i}{j}" for i in R3 for j in R3 if i <= j]
    if rb:
        P.nan("ax", "NUM_AUXEVOL_GFS")
        P.call(f"Ricci_eval(&commondata, params, {m_}, y, ax);")
        P.dump("ax", rnames, "ricci:")
    P.call(f"enforce_detgammabar_equals_detgammahat(&commondata, params, {m_}, y);")
    P.dump("y", "EVOL", "det:")
    err = P.run(add_ghost=True)
    if err:
        return [("run", err)], 0
    suf = ("_RbarDD_gridfunctions" if rb else "") + ("_T4munu" if T4 else "")
    C = BSSN_constraints[cs + suf]
    rhs = dict(BSSN_RHSs[cs + suf].BSSN_RHSs_varname_to_expr_dict)
    al, vet, bet = BSSN_gauge_RHSs(CoordSystem=cs, enable_rfm_precompute=False, enable_T4munu=T4, LapseEvolutionOption=o["lapse"], ShiftEvolutionOption=o["shift"])
    rhs["alpha_rhs"] = al
    for i in R3:
        rhs[f"vet_rhsU{i}"], rhs[f"bet_rhsU{i}"] = vet[i], bet[i]
    ex = {}
    for k, e in rhs.items():
        g = re.fullmatch(r"(\w+?)_rhs(\w*)", k)
        ex[g[1] + g[2]] = e
    cf = S("cf")
    W = {"W": cf, "chi": sp.sqrt(cf), "phi": sp.exp(-2 * cf)}[o["cf"]]
    if o["KO"]:
        for n in ex:
            if n.startswith("bet") and "2ndOrder" not in o["shift"]:
                continue
            st = sp.Float(0.23) if n.startswith(("alpha", "vet", "bet")) else sp.Float(0.41)
            ex[n] += dissipation(cs, n, st * (W if o["CAKO"] else 1))
    if o["CAHD"]:
        # d(phi)/dt gains -C H; the other conformal factors are functions of phi
        ex["cf"] += -S("cahdprefactor") * C.H * {"W": -2 * cf, "chi": -4 * cf, "phi": 1}[o["cf"]]
    if o["SSL"]:
        ex["alpha"] -= W * S("SSL_Gaussian_prefactor") * (S("alpha") - W)
    some = P.interior()[:: 5 if o.get("few") else 2]
    probs, n = P.compare("bssn:rhs_eval", ex, out="rhs:", points=some, tol=1e-7)
    if sorted(ex) != sorted(P.gfs("EVOL")):
        probs.append(("bssn:rhs_eval:set", f"right-hand sides of {sorted(ex)}, evolved gridfunctions {sorted(P.gfs('EVOL'))}"))
    probs += P.untouched("bssn:rhs_eval", ex, "rhs:")
    p, m = P.compare("bssn:constraints", {"H": C.H, "MSQUARED": C.Msquared}, out="diag:", points=some, tol=1e-7)
    probs, n = probs + p + P.untouched("bssn:constraints", ["H", "MSQUARED"], "diag:"), n + m
    if rb:
        B = BSSN_quantities[cs]
        p, m = P.compare("bssn:Ricci_eval", dict(zip(B.Ricci_varnames, B.Ricci_exprs)), out="ricci:", points=some, tol=1e-7)
        probs, n = probs + p + P.untouched("bssn:Ricci_eval", rnames, "ricci:"), n + m
    rfm = refmetric.reference_metric[cs]
    for ijk in P.every()[::3]:
        pt, memo = P.point(ijk), {}
        at = P.at(ijk)
        if o["CAHD"]:
            ds = []
            for i in R3:
                ds.append(math.sqrt(sum(float(tn.ev(sp.diff(rfm.xx_to_Cart[a], rfm.xx[i]), pt, memo)) ** 2 for a in R3)) * P.par[f"dxx{i}"])
            wv, v = 0.19 * 0.43 * min(ds), P.data["aux:cahdprefactor"][at]
            n += 1
            if not abs(v - wv) <= 1e-9 * (1 + abs(wv)):
                probs.append(("bssn:cahdprefactor", f"cahdprefactor = {v!r} at {ijk}, C_CAHD * CFL_FACTOR * (smallest proper spacing) = {wv!r}"))
                break
        # unit determinant of delta_ij + h_ij, same conformal class
        g0 = [[P.data[f"in:hDD{min(i, j)}{max(i, j)}"][at] + (i == j) for j in R3] for i in R3]
        f = float(mp.det(mp.matrix(g0))) ** (-1 / 3)
        for nme in P.gfs("EVOL"):
            v, w0 = P.data["det:" + nme][at], P.data["in:" + nme][at]
            if nme.startswith("hDD"):
                i, j = int(nme[3]), int(nme[4])
                w0 = f * g0[i][j] - (i == j)
            n += 1
            if not abs(v - w0) <= (1e-9 if nme.startswith("hDD") else 0):
                return probs + [(f"bssn:enforce_det:{nme}", f"after enforcing the determinant {nme} = {v!r} at {ijk}, expected {w0!r}")], n
    return probs, n


def options(thorough):
    b = dict(cf="W", fdf=False, rb=True, T4=False, collapse=1, lapse="OnePlusLog", shift="GammaDriving2ndOrder_Covariant", KO=True, CAKO=True, CAHD=True, SSL=True)
    J = [
        ("Cartesian", True, True, 2, dict(b, T4=True, fdf=True)),
        ("Spherical", True, False, 2, dict(b, cf="chi", CAKO=False)),
        ("SinhCylindrical", True, False, 2, dict(b, cf="phi", KO=True, CAHD=True, SSL=False, shift="GammaDriving2ndOrder_NoCovariant")),
        ("SinhSymTP", True, False, 2, dict(b, CAHD=False, CAKO=True, few=True)),
        ("SinhSpherical", False, False, 4, dict(b, KO=False, CAHD=False, lapse="HarmonicSlicing", shift="GammaDriving1stOrder_Covariant", few=True)),
        ("Cylindrical", True, True, 2, dict(b, T4=True, SSL=True, CAHD=False, CAKO=False, shift="NonAdvectingGammaDriving", few=True)),
        ("Cartesian", False, False, 4, dict(b, rb=False, cf="chi", CAKO=True, lapse="OnePlusLogAlt", shift="Frozen")),
    ]
    if thorough:
        for cs in ("SinhCartesian", "SinhSphericalv2n2", "SymTP", "HoleySinhSpherical", "RingHoleySinhSpherical", "SinhCylindricalv2n2", "LWedgeHSinhSph", "UWedgeHSinhSph"):
            J.append((cs, True, False, 2, dict(b, cf="chi", T4=True)))
            J.append((cs, False, False, 2, dict(b, cf="phi", few=True)))
        J.append(("Spherical", True, True, 4, dict(b, fdf=True, few=True)))
        J.append(("SinhSpherical", True, True, 8, dict(b, fdf=True, few=True)))
    return J


def jobs(thorough):
    J = []
    systems = bhah.COORDS
    for k, cs in enumerate(systems):
        for q, (pre, simd, ko) in enumerate((p, s, k) for p, s, k in itertools.product((False, True), repeat=3) if p or not s):  # vectors need precomputation
            if thorough or (q + k) % 2 == 0:
                for fd in ((2, 4, 6, 8) if thorough else ((2, 4, 6, 8)[(k + q // 2) % 4],)):
                    J.append(("wave", cs, pre, simd, ko, fd, 1 + (k + q) % 3))
        for q, (pre, simd) in enumerate(((False, False), (True, False), (True, True))):
            if thorough or (q + k) % 2 == 0:
                J.append(("elliptic", cs, pre, simd, (2, 4, 6)[(k + q) % 3], 1 + (k + q) % 2))
    return J


def one(kind, *a):
    mp.mp.dps = 30
    return {"wave": wave, "elliptic": elliptic, "bssn": bssn}[kind](*a)


def body(chk):
    J = [("bssn",) + j for j in options(chk.thorough)] + jobs(chk.thorough)
    sel = os.environ.get("C30_ONLY")
    if sel:
        J = [j for j in J if sel in str(j)]
    args = [(j[0], j[1], f"{SCRATCH}/p{k}") + j[2:] for k, j in enumerate(J)]
    for j, (probs, n) in zip(J, vf.pmap(one, args, timeout=3000)):
        chk.count("programs")
        chk.count("values compared", n)
        chk.outcome(str(j))
        for key, msg in probs:
            chk.violation(f"{key}:{j[1]}", f"{j}: {msg}", {"job": j})
    chk.sample({"job": str(J[-1]) if J else None})


if __name__ == "__main__":
    vf.main("C30", "exploration", "distinct programs (equations, coordinate system, options)", body)
