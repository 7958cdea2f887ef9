"""C19: precomputed reference-metric quantities equal their closed forms.

For every coordinate system and grid shape of a list, kernels storing every reference-metric
quantity (metric, inverse, Christoffel symbols, rescaling factors, determinant, and their
derivatives) are generated with precomputation, with every loop option, and run at every grid
point including ghost zones. Oracles: the closed forms evaluated by independently printed C, and
the flat metric and its connection from the Jacobian and Hessian of the map to Cartesian
coordinates. Whole evolution kernels (wave equation; thorough: BSSN) are compared with and without
precomputation. Allocation and release run under the address and leak sanitizers.
"""

import itertools
import os

import sympy as sp

import bhah
import vf
import wave

import nrpy.c_codegen as ccg
import nrpy.c_function as cfc
import nrpy.helpers.generic as gen
import nrpy.params as par
import nrpy.reference_metric as refmetric

QUANT = ("ghatDD", "ghatUU", "GammahatUDD", "GammahatUDDdD", "ReU", "ReD", "ReDD", "ReUdD", "ReDdD", "ReDDdD", "ReDDdDD", "detgammahat", "detgammahatdD", "detgammahatdDD", "ghatDDdD", "ghatDDdDD", "ReUdDD")


def flat(x):
    if isinstance(x, (list, tuple)):
        return list(itertools.chain.from_iterable(flat(y) for y in x))
    return [sp.sympify(x)]


def quantities(rfm):
    names, ex = [], []
    for q in QUANT:
        if not hasattr(rfm, q):
            continue
        for k, e in enumerate(flat(getattr(rfm, q))):
            names.append(f"{q}[{k}]")
            ex.append(e)
    return names, ex


def kernel(cs, name, simd, region, collapse, exprs, precompute=True):
    from nrpy.infrastructures.BHaH import simple_loop as lp  # pylint: disable=import-outside-toplevel

    inc = ["BHaH_defines.h"] + ([os.path.join("intrinsics", "simd_intrinsics.h")] if simd else [])
    body = lp.simple_loop(
        loop_body=ccg.c_codegen(exprs, [f"out[IDX4({k}, i0, i1, i2)]" for k in range(len(exprs))], enable_simd=simd, include_braces=True, enable_fd_codegen=True),
        loop_region=region, enable_simd=simd, CoordSystem=cs, enable_rfm_precompute=precompute, read_xxs=not precompute, OMP_collapse=collapse,
    )
    cfc.register_CFunction(includes=inc, desc=name, name=name, CoordSystem_for_wrapper_func=cs, params="const commondata_struct *restrict commondata, const params_struct *restrict params, const rfm_struct *restrict rfmstruct, REAL *restrict out" if precompute else "const commondata_struct *restrict commondata, const params_struct *restrict params, REAL *restrict xx[3], REAL *restrict out", include_CodeParameters_h=True, enable_simd=simd, body=body)


def closed_c(cs, exprs):
    """Closed forms and the flat metric/connection, printed without nrpy."""
    rfm = refmetric.reference_metric[cs]
    o = f"static void closed_{cs}(const commondata_struct *commondata, const params_struct *params, double xx0, double xx1, double xx2, double *o) {{\n#include \"set_CodeParameters.h\"\n"
    rep, red = sp.cse(exprs, order="none")
    for s, e in rep:
        o += f"const double {s} = {bhah.ccode(e)};\n"
    for k, e in enumerate(red):
        o += f"o[{k}] = {bhah.ccode(e)};\n"
    o += "}\n"
    X, xx = rfm.xx_to_Cart, rfm.xx
    J = [[sp.diff(X[a], xx[i]) for i in range(3)] for a in range(3)]
    H = [[[sp.diff(J[a][i], xx[j]) for j in range(3)] for i in range(3)] for a in range(3)]
    rep, red = sp.cse(flat(J) + flat(H), order="none")
    o += f"static void jac_{cs}(const commondata_struct *commondata, const params_struct *params, double xx0, double xx1, double xx2, double *o) {{\n#include \"set_CodeParameters.h\"\n"
    for s, e in rep:
        o += f"const double {s} = {bhah.ccode(e)};\n"
    for k, e in enumerate(red):
        o += f"o[{k}] = {bhah.ccode(e)};\n"
    return o + "}\n"


def project(systems, d, shape, variants, fd):
    os.makedirs(d)
    bhah.start(fd)
    import nrpy.grid as gri  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH import rfm_precompute  # pylint: disable=import-outside-toplevel

    gri.register_gridfunctions("uu", group="EVOL")
    bhah.grid_and_bcs(systems, bcs=False, enable_rfm_precompute=True)
    rfm_precompute.register_CFunctions_rfm_precompute(list_of_CoordSystems=list(systems))
    labels, info, cl = {}, {}, ""
    for cs in systems:
        pre_n, pre_e = quantities(refmetric.reference_metric[cs + "_rfm_precompute"])
        ref_n, ref_e = quantities(refmetric.reference_metric[cs])
        ref = dict(zip(ref_n, ref_e))
        keep = [k for k, n in enumerate(pre_n) if n in ref and (pre_e[k] != 0 or ref[n] != 0)]
        # by symmetry, one of each pair of equal expressions is enough
        seen = {}
        keep = [k for k in keep if seen.setdefault((pre_e[k], ref[pre_n[k]]), k) == k or pre_n[k].startswith(("ghatDD[", "ghatUU[", "GammahatUDD["))]
        labels[cs] = [pre_n[k] for k in keep]
        for v, (simd, region, collapse) in enumerate(variants):
            kernel(cs, f"vf_k{v}", simd, region, collapse, [pre_e[k] for k in keep])
        info[cs] = len(keep)
        cl += closed_c(cs, [ref[pre_n[k]] for k in keep])
    gen.copy_files(package="nrpy.helpers", filenames_list=["simd_intrinsics.h"], project_dir=d, subdirectory="intrinsics")
    srcs = bhah.finish(d, "vf", rfm_precompute=True, simd=True)
    return srcs, labels, driver(systems, labels, cl, shape, variants)


def driver(systems, labels, cl, shape, variants):
    c = '#include "BHaH_defines.h"\n#include "BHaH_function_prototypes.h"\nstatic double vsign(double x) { return (x > 0) - (x < 0); }\n' + cl
    c += r"""
#define VAL(q) ((q) < 0 ? 0.0 : (double)out[IDX4((q), i0, i1, i2)])
static long npts = 0, nq = 0;
static void bad(const char *cs, const char *kind, int v, int q, int i0, int i1, int i2, double a, double b) {
  static int n = 0; if (n++ < 40) printf("BAD %s %s variant %d quantity %d at %d,%d,%d: %.15g expected %.15g\n", cs, kind, v, q, i0, i1, i2, a, b);
}
static void inv3(double J[3][3], double I[3][3]) {
  double det = 0; for (int i = 0; i < 3; i++) det += J[0][i] * (J[1][(i + 1) % 3] * J[2][(i + 2) % 3] - J[1][(i + 2) % 3] * J[2][(i + 1) % 3]);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) I[j][i] = (J[(i + 1) % 3][(j + 1) % 3] * J[(i + 2) % 3][(j + 2) % 3] - J[(i + 1) % 3][(j + 2) % 3] * J[(i + 2) % 3][(j + 1) % 3]) / det;
}
static int close_(double a, double b, double scale) { return fabs(a - b) <= 1e-9 * (fabs(a) + fabs(b)) + 1e-11 * scale; }
"""
    c += "int main(void) {\n  commondata_struct commondata; memset(&commondata, 0, sizeof commondata); commondata_struct_set_to_default(&commondata);\n"
    c += f"  const int shapes[][3] = {{{', '.join('{%d,%d,%d}' % s for s in shape)}}};\n"
    for cs in systems:
        lab = labels[cs]
        nqn = len(lab)
        for q, n in (("ghatDD", 9), ("ghatUU", 9), ("GammahatUDD", 27)):
            c += f"  static const int {q}_{cs}[{n}] = {{{', '.join(str(lab.index(f'{q}[{k}]') if f'{q}[{k}]' in lab else -1) for k in range(n))}}};\n"
        c += f"  for (int s = 0; s < {len(shape)}; s++) {{\n"
        c += "    griddata_struct g; memset(&g, 0, sizeof g); griddata_struct *griddata = &g; params_struct *params = &g.params;\n    params_struct_set_to_default(&commondata, griddata);\n"
        c += f"    params->CoordSystem_hash = {cs.upper()}; params->grid_physical_size = 4.0; commondata.NUMGRIDS = 1; commondata.convergence_factor = 1.0;\n"
        c += "    int Nx[3] = {shapes[s][0], shapes[s][1], shapes[s][2]};\n    numerical_grid_params_Nxx_dxx_xx(&commondata, params, g.xx, Nx, true);\n"
        c += "    rfm_struct rfm; memset(&rfm, 0x5a, sizeof rfm); rfm_precompute_malloc(&commondata, params, &rfm); rfm_precompute_defines(&commondata, params, &rfm, g.xx);\n"
        c += "    const int Nxx_plus_2NGHOSTS0 = params->Nxx_plus_2NGHOSTS0, Nxx_plus_2NGHOSTS1 = params->Nxx_plus_2NGHOSTS1, Nxx_plus_2NGHOSTS2 = params->Nxx_plus_2NGHOSTS2; const long ntot = (long)Nxx_plus_2NGHOSTS0 * Nxx_plus_2NGHOSTS1 * Nxx_plus_2NGHOSTS2;\n"
        c += f"    REAL *out = malloc(sizeof(REAL) * (ntot + 16) * {nqn}); double ref[{nqn}], jh[36];\n"
        for v, (simd, region, collapse) in enumerate(variants):
            if simd:
                c += "    if (params->Nxx0 % simd_width == 0 && Nxx_plus_2NGHOSTS0 % simd_width == 0) {\n" if region == "all points" else "    if (params->Nxx0 % simd_width == 0) {\n"
            else:
                c += "    {\n"
            c += f"      for (long i = 0; i < ntot * {nqn}; i++) out[i] = NAN;\n      vf_k{v}(&commondata, params, &rfm, out);\n"
            lo, hi = ("0", "Nxx_plus_2NGHOSTS%d") if region == "all points" else ("NGHOSTS", "Nxx_plus_2NGHOSTS%d - NGHOSTS")
            c += "".join(f"      for (int i{k} = {lo}; i{k} < {hi % k}; i{k}++)\n" for k in (2, 1, 0)) + "      {\n"
            c += f"        npts++; closed_{cs}(&commondata, params, g.xx[0][i0], g.xx[1][i1], g.xx[2][i2], ref);\n"
            c += f"        for (int q = 0; q < {nqn}; q++) {{ nq++; const double a = out[IDX4(q, i0, i1, i2)]; if (!isfinite(ref[q]) && !isfinite(a)) continue; if (!close_(a, ref[q], 1 + fabs(ref[q]))) bad(\"{cs}\", \"closed\", {v}, q, i0, i1, i2, a, ref[q]); }}\n"
            c += f"        jac_{cs}(&commondata, params, g.xx[0][i0], g.xx[1][i1], g.xx[2][i2], jh);\n"
            c += "        double J[3][3], I[3][3], sc = 0; for (int a = 0; a < 9; a++) { J[a / 3][a % 3] = jh[a]; } inv3(J, I); for (int a = 0; a < 9; a++) sc += fabs(I[a / 3][a % 3]);\n        if (!isfinite(sc)) continue;\n"
            c += "        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double m = 0, mu = 0, sm = 0; for (int a = 0; a < 3; a++) { m += J[a][i] * J[a][j]; mu += I[i][a] * I[j][a]; sm += fabs(J[a][i] * J[a][j]); }\n"
            c += f"          const double gd = VAL(ghatDD_{cs}[3 * i + j]), gu = VAL(ghatUU_{cs}[3 * i + j]); if (!close_(gd, m, 100 * sm)) bad(\"{cs}\", \"flat metric\", {v}, 3 * i + j, i0, i1, i2, gd, m);\n"
            c += f"          if (!close_(gu, mu, 1e3 * sc * sc)) bad(\"{cs}\", \"flat inverse metric\", {v}, 3 * i + j, i0, i1, i2, gu, mu);\n"
            c += "          for (int k = 0; k < 3; k++) { double G = 0, s2 = 0; for (int a = 0; a < 3; a++) { G += I[i][a] * jh[9 + 9 * a + 3 * j + k]; s2 += fabs(I[i][a] * jh[9 + 9 * a + 3 * j + k]); }\n"
            c += f"            const double b = VAL(GammahatUDD_{cs}[9 * i + 3 * j + k]); if (!close_(b, G, 1e3 * (s2 + 1))) bad(\"{cs}\", \"flat connection\", {v}, 9 * i + 3 * j + k, i0, i1, i2, b, G); }} }}\n"
            c += "      }\n    }\n"
        c += "    rfm_precompute_free(&commondata, params, &rfm); free(out); for (int k = 0; k < 3; k++) free(g.xx[k]);\n  }\n"
    c += '  printf("DONE points=%ld values=%ld\\n", npts, nq); return 0;\n}\n'
    return c


def one(systems, d, shape, variants, fd, asan):
    srcs, labels, drv = project(systems, d, shape, variants, fd)
    flags = ["-fopenmp", "-march=native"] + (["-fsanitize=address", "-g1"] if asan else [])
    exe = bhah.compile_project(d, srcs, drv, flags=flags, opt="-O1")
    p = vf.run([exe], timeout=600, env={"OMP_NUM_THREADS": "2", "OMP_WAIT_POLICY": "passive", "ASAN_OPTIONS": "detect_leaks=1"})
    probs = []
    for ln in p.stdout.splitlines():
        if ln.startswith("BAD"):
            w = ln.split()
            q = int(ln.split("quantity ")[1].split()[0])
            nm = labels[w[1]][q] if "closed" in ln else f"{q}"
            probs.append((f"{w[1]}:{ln.split('variant')[0][4:].strip()}:{nm}", f"{nm}: {ln} variant={variants[int(ln.split('variant ')[1].split()[0])]}"))
    if p.returncode or "DONE" not in p.stdout:
        probs.append((f"{systems}:run", f"exit {p.returncode}: {p.stderr[-800:]}"))
        return probs, 0, 0
    done = p.stdout.rsplit("DONE", 1)[1]
    n, q = (int(x.split("=")[1]) for x in done.split())
    return probs, n, q


# ------------------------------------------------------------------ whole kernels
WDRV = r"""
#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
int main(int argc, char **argv) {
  commondata_struct commondata; memset(&commondata, 0, sizeof commondata); commondata_struct_set_to_default(&commondata); commondata.NUMGRIDS = 1;
  griddata_struct g; memset(&g, 0, sizeof g); params_struct *params = &g.params; params_struct_set_to_default(&commondata, &g);
  params->CoordSystem_hash = %(CS)s; params->grid_physical_size = 4.0; commondata.convergence_factor = 1.0;
  int Nx[3] = {%(N)s}; numerical_grid_params_Nxx_dxx_xx(&commondata, params, g.xx, Nx, true);
  const int Nxx_plus_2NGHOSTS0 = params->Nxx_plus_2NGHOSTS0, Nxx_plus_2NGHOSTS1 = params->Nxx_plus_2NGHOSTS1, Nxx_plus_2NGHOSTS2 = params->Nxx_plus_2NGHOSTS2;
  const long ntot = (long)Nxx_plus_2NGHOSTS0 * Nxx_plus_2NGHOSTS1 * Nxx_plus_2NGHOSTS2;
  REAL *in = malloc(sizeof(REAL) * ntot * NUM_EVOL_GFS), *out = malloc(sizeof(REAL) * ntot * NUM_EVOL_GFS);
  unsigned s = 7; for (long i = 0; i < ntot * NUM_EVOL_GFS; i++) { s = s * 1103515245u + 12345u; in[i] = ((s >> 8) %% 10000) / 10000.0 - 0.3; out[i] = 0; }
%(call)s
  for (int gf = 0; gf < NUM_EVOL_GFS; gf++) for (int i2 = NGHOSTS; i2 < NGHOSTS + params->Nxx2; i2++) for (int i1 = NGHOSTS; i1 < NGHOSTS + params->Nxx1; i1++) for (int i0 = NGHOSTS; i0 < NGHOSTS + params->Nxx0; i0++)
    printf("%%.15e\n", (double)out[IDX4(gf, i0, i1, i2)]);
  return 0;
}
"""


def wave_kernel(cs, d, pre, simd, ko, fd, collapse):
    from nrpy.infrastructures.BHaH import rfm_precompute  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH.wave_equation import wave_equation_C_codegen_library as w  # pylint: disable=import-outside-toplevel

    os.makedirs(d)
    bhah.start(fd)
    bhah.grid_and_bcs(cs, bcs=False, enable_rfm_precompute=pre)
    if pre:
        rfm_precompute.register_CFunctions_rfm_precompute(list_of_CoordSystems=[cs])
    w.register_CFunction_rhs_eval(CoordSystem=cs, enable_rfm_precompute=pre, enable_simd=simd, enable_KreissOliger_dissipation=ko, OMP_collapse=collapse)
    gen.copy_files(package="nrpy.helpers", filenames_list=["simd_intrinsics.h"], project_dir=d, subdirectory="intrinsics")
    srcs = bhah.finish(d, "vf", rfm_precompute=pre, simd=simd, add_ghost=ko)
    call = "  rhs_eval(&commondata, params, g.xx, in, out);\n"
    if pre:
        call = "  rfm_struct rfm; rfm_precompute_malloc(&commondata, params, &rfm); rfm_precompute_defines(&commondata, params, &rfm, g.xx);\n  rhs_eval(&commondata, params, &rfm, in, out);\n  rfm_precompute_free(&commondata, params, &rfm);\n"
    exe = bhah.compile_project(d, srcs, WDRV % {"CS": cs.upper(), "N": "8, 4, 6", "call": call}, flags=["-fopenmp", "-march=native"])
    p = vf.run([exe], env={"OMP_NUM_THREADS": "2", "OMP_WAIT_POLICY": "passive"})
    if p.returncode:
        raise vf.CompileError(f"kernel {cs} pre={pre} simd={simd} ended with {p.returncode}: {p.stderr[-500:]}")
    return [float(x) for x in p.stdout.split()]


def wave_pair(cs, d, ko, fd, collapse):
    ref = vf.forked(wave_kernel, cs, d + "a", False, False, ko, fd, 1)
    n = 0
    probs = []
    for pre, simd, col in ((True, False, collapse), (True, True, 1), (False, False, 2)):
        got = vf.forked(wave_kernel, cs, d + f"b{int(pre)}{int(simd)}", pre, simd, ko, fd, col)
        n += len(got)
        scale = max(map(abs, ref))
        if len(got) != len(ref):
            probs.append((f"wave:{cs}", "number of points differs"))
            continue
        for k, (a, b) in enumerate(zip(ref, got)):
            if not abs(a - b) <= 1e-10 * (abs(a) + abs(b)) + 1e-12 * scale:
                probs.append((f"wave:{cs}:{pre}:{simd}", f"rhs_eval on {cs}, fd order {fd}, KO {ko}: precompute={pre} simd={simd} gives {b}, without {a} (value {k} of {len(ref)})"))
                break
    return probs, len(ref), n


def guarded(fn, *a):
    try:
        return fn(*a)
    except vf.CompileError as e:
        return [("compile:" + str(a[0]), str(e)[-1200:])], 0, 0


def body(chk):
    B = chk.thorough
    shapes = [(8, 4, 4), (5, 3, 2)] if not B else [(8, 4, 4), (5, 3, 2), (16, 6, 8), (7, 8, 3), (8, 2, 2), (3, 5, 7)]
    variants = [(False, "all points", 1), (True, "interior", 1), (False, "interior", 2), (False, "interior", 3)]
    jobs = []
    for k, cs in enumerate(bhah.COORDS):
        jobs.append((one, [cs], os.path.join(chk.scratch, cs), shapes, variants, 4, True))
        jobs.append((wave_pair, cs, os.path.join(chk.scratch, "w" + cs), bool(k % 2), (2, 4, 6)[k % 3], 2 + k % 2))
        if B:
            for fd in (2, 4, 6, 8):
                for ko in (False, True):
                    jobs.append((wave_pair, cs, os.path.join(chk.scratch, f"w{cs}{fd}{ko}"), ko, fd, 3))
    jobs.append((one, ["Spherical", "SinhCylindrical", "SinhSymTP", "Cartesian"], os.path.join(chk.scratch, "multi"), shapes, variants[:2], 2, True))
    if B:
        jobs.append((one, list(bhah.COORDS), os.path.join(chk.scratch, "multiall"), shapes, variants[:1], 6, True))
    for j, (probs, n, q) in zip(jobs, vf.pmap(guarded, jobs, timeout=1500)):
        for key, what in probs:
            chk.violation(key, what, {"job": [str(x)[:120] for x in j[1:]]})
        chk.count("states", n)
        chk.count("transitions", q)
        chk.outcome((j[0].__name__, str(j[1]), str(j[3:]), n))
        chk.sample({"kind": j[0].__name__, "systems": str(j[1]), "points": n, "values": q})
    chk.cov["bounds"] = f"14 coordinate systems, grid shapes {shapes}, every grid point, loop variants {variants}"


if __name__ == "__main__":
    vf.main("C19", "exploration", "every quantity x coordinate system x grid point x loop variant", body)
