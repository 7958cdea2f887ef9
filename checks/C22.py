"""C22: slice diagnostics write exactly the grid points on (or next to) the centre, axis or plane.

The generated 0D, 1D and 2D diagnostics run on every grid shape of the stated set, in every
coordinate system, with gridfunctions whose value identifies the point; the files are read back
and compared with the set of points found from the coordinates alone.
"""

import os

import bhah
import vf

# transverse targets: name of the slice -> {direction: target values of that coordinate}; None: no such points
def targets(cs):
    fam = bhah.family(cs)
    P = "M_PI/2"
    if fam == "cartesian":
        return {"y": {0: ["0"], 2: ["0"]}, "z": {0: ["0"], 1: ["0"]}, "xy": {2: ["0"]}, "yz": {0: ["0"]}, "c": {0: ["0"], 1: ["0"], 2: ["0"]}}
    if fam == "cylindrical":
        return {"y": {1: ["-" + P, P], 2: ["0"]}, "z": {0: ["0"], 1: "any"}, "xy": {2: ["0"]}, "yz": {1: ["-" + P, P]}, "c": {0: ["0"], 1: "any", 2: ["0"]}}
    if fam == "wedge":
        # x_old = +-z, z_old = -+x: the z axis is the spherical +x axis, the yz plane the spherical equator
        return {"y": None, "z": {1: [P], 2: ["0"]}, "yz": {1: [P]}, "c": "refused"}
    lo = "params->xxmin0"
    r = {"y": {1: [P], 2: ["-" + P, P]}, "z": {1: ["0", "M_PI"], 2: "any"}, "xy": {1: [P]}, "yz": {2: ["-" + P, P]}, "c": {0: [lo], 1: "any", 2: "any"}}
    if fam == "symtp":
        r["c"] = {0: [lo], 1: [P], 2: "any"}
    if fam == "ring":
        r["z"] = None
    return r


DRIVER = r"""
#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
#include <stdarg.h>
#include <unistd.h>
static double vsign(double x) { return (x > 0) - (x < 0); }
%(geom)s
static commondata_struct commondata; static griddata_struct gd[MAXNUMGRIDS]; static params_struct *params;
static long npts, nslices; static int bad, M[3], N[3]; static const char *which; static char w[200];
static void fail(const char *f, ...) { va_list a; va_start(a, f); if (bad++ > 2) exit(0); printf("BAD %%s, Nxx=%%d,%%d,%%d NGHOSTS=%%d: ", which, params->Nxx0, params->Nxx1, params->Nxx2, NGHOSTS); vprintf(f, a); printf("\n"); fflush(stdout); }
#define MAXP 4000
static double row[MAXP][9]; static int nrow;
static void slurp(const char *fn, int cols) {
  nrow = 0; FILE *f = fopen(fn, "r"); if (!f) { fail("no file %%s", fn); return; }
  static char line[2000];
  while (fgets(line, sizeof line, f)) { int at = 0, n, c = 0; if (nrow >= MAXP) { fail("too many lines"); break; }
    double v; while (sscanf(line + at, "%%lf%%n", &v, &n) == 1) { if (c < 9) row[nrow][c] = v; c++; at += n; }
    if (c != cols) { fail("line %%d has %%d columns instead of %%d: %%s", nrow, c, cols, line); break; } nrow++; }
  fclose(f);
}
// a direction of a slice: free (n = -1), any single index (n = 0), or nearest to n target values
typedef struct { int n; double t[2]; } dir;
// set of admissible indices (bit mask per target; ties admit both neighbours)
static int admissible(int d, double t, int i) {
  double best = 1e30; for (int j = NGHOSTS; j < NGHOSTS + N[d]; j++) best = fmin(best, fabs(gd[0].xx[d][j] - t));
  const double dx = d == 0 ? params->dxx0 : d == 1 ? params->dxx1 : params->dxx2;
  return fabs(gd[0].xx[d][i] - t) <= best + 1e-4 * dx;
}
// rows lead with `lead` coordinates, then: value of su (the point's number), of the int quantity, of aux, of diag
static void check(const char *fn, int lead, const int ax[2], const dir D[3], int extra_i0, int ordered, int records) {
  nslices++; slurp(fn, lead + 4); if (bad) return;
  if (nrow %% records) { fail("%%d lines for %%d records", nrow, records); return; }
  const int per = nrow / records;
  for (int rec = 0; rec < records; rec++) {
    static char seen[100000]; memset(seen, 0, sizeof seen); int used[3][64]; memset(used, 0, sizeof used); int main_pts = 0;
    for (int q = 0; q < per; q++) { const double *r = row[rec * per + q]; npts++;
      const long id = lround(r[lead]);
      const int i = id %% M[0], j = (id / M[0]) %% M[1], k = id / (M[0] * M[1]); const int I[3] = {i, j, k};
      if (id < 0 || k >= M[2] || fabs(r[lead] - id) > 1e-6) { fail("line %%d: no point has the value %%.15g", q, r[lead]); return; }
      for (int d = 0; d < 3; d++) if (I[d] < NGHOSTS || I[d] >= NGHOSTS + N[d]) { fail("line %%d is the ghost point (%%d,%%d,%%d)", q, i, j, k); return; }
      if (seen[id]++) { fail("point (%%d,%%d,%%d) is written twice", i, j, k); return; }
      if (lround(r[lead + 1]) != 3 * id + 1 || lround(r[lead + 2]) != id + 100000 || lround(r[lead + 3]) != id + 200000) { fail("point (%%d,%%d,%%d) has values %%.15g %%.15g %%.15g of the wrong point or quantity", i, j, k, r[lead+1], r[lead+2], r[lead+3]); return; }
      if (lead >= 1 && ax[0] >= 0) { double X[3]; ref_cart(&commondata, params, gd[0].xx[0][i], gd[0].xx[1][j], gd[0].xx[2][k], X);
        X[0] += params->Cart_originx; X[1] += params->Cart_originy; X[2] += params->Cart_originz;
        for (int c = 0; c < lead; c++) if (fabs(r[c] - X[ax[c]]) > %(tol)s * 10) { fail("point (%%d,%%d,%%d): coordinate column %%d is %%.15g, should be %%.15g", i, j, k, c, r[c], X[ax[c]]); return; } }
      if (ordered && q && r[0] < row[rec * per + q - 1][0]) { fail("line %%d is out of order along the axis", q); return; }
      int on = 1; for (int d = 0; d < 3; d++) { if (D[d].n > 0) { int a = 0; for (int t = 0; t < D[d].n; t++) a |= admissible(d, D[d].t[t], I[d]); on &= a; } }
      if (on) { for (int d = 0; d < 3; d++) used[d][I[d]] = 1; main_pts++; }
      else if (!(extra_i0 && i == NGHOSTS)) { fail("point (%%d,%%d,%%d) is not next to the slice", i, j, k); return; }
    }
    // completeness: each direction uses exactly the required indices, and all combinations are there
    int prod = 1;
    for (int d = 0; d < 3; d++) { int n = 0; for (int j = 0; j < 64; j++) n += used[d][j];
      int need = D[d].n < 0 ? N[d] : D[d].n == 0 ? 1 : 0;
      if (D[d].n > 0) for (int t = 0; t < D[d].n; t++) { int got = 0; for (int j = NGHOSTS; j < NGHOSTS + N[d]; j++) got += used[d][j] && admissible(d, D[d].t[t], j); if (!got) { fail("direction %%d: nothing is written next to %%g", d, D[d].t[t]); return; } need++; }
      if (n != need) { fail("direction %%d: %%d different indices are written, should be %%d", d, n, need); return; } prod *= n; }
    if (main_pts != prod) { fail("%%d points are written, should be %%d", main_pts, prod); return; }
  }
}
static void empty(const char *fn) { nslices++; FILE *f = fopen(fn, "r"); if (!f) { fail("no file %%s", fn); return; } if (fgetc(f) != EOF) fail("points are written where there are none"); fclose(f); }
int main(int argc, char *argv[]) {
  static const int S0[] = {%(s0)s}, S1[] = {%(s1)s}, S2[] = {%(s2)s};
#define LEN(a) (int)(sizeof a / sizeof *a)
  MoL_gridfunctions_struct *g = &gd[0].gridfuncs; params = &gd[0].params; which = w;
  for (int a = 0; a < LEN(S0); a++) for (int b = 0; b < LEN(S1); b++) for (int c = 0; c < LEN(S2); c++) {
    commondata_struct_set_to_default(&commondata); commondata.NUMGRIDS = 1; params_struct_set_to_default(&commondata, gd);
    params->CoordSystem_hash = %(HASH)s; params->grid_physical_size = 4.0;
    const int Nx[3] = {S0[a], S1[b], S2[c]}; const int alt = (a + b + c) & 1;
    commondata.convergence_factor = 1; if (alt) { params->Cart_originx = 0.25; params->Cart_originy = -0.5; params->Cart_originz = 1.125; }
    numerical_grid_params_Nxx_dxx_xx(&commondata, params, gd[0].xx, Nx, true);
    N[0] = params->Nxx0; N[1] = params->Nxx1; N[2] = params->Nxx2; for (int d = 0; d < 3; d++) M[d] = N[d] + 2 * NGHOSTS;
    const int tot = M[0] * M[1] * M[2]; REAL *y = malloc(sizeof(REAL) * NUM_EVOL_GFS * tot), *ax_ = malloc(sizeof(REAL) * (NUM_AUXEVOL_GFS + 1) * tot), *dg = malloc(sizeof(REAL) * NUM_EVOL_GFS * tot);
    for (int q = 0; q < NUM_EVOL_GFS * tot; q++) y[q] = dg[q] = -5; for (int q = 0; q < NUM_AUXEVOL_GFS * tot; q++) ax_[q] = -6;
    for (int q = 0; q < tot; q++) { y[SUGF * tot + q] = q; dg[VECU1GF * tot + q] = q + 200000; ax_[MARKGF * tot + q] = q + 100000; }
    g->y_n_gfs = y; g->auxevol_gfs = ax_; g->diagnostic_output_gfs = dg;
    REAL **xx = gd[0].xx; char fn[200];
    static const int none[2] = {-1, -1}, ay[2] = {1, -1}, az[2] = {2, -1}, pxy[2] = {0, 1}, pyz[2] = {1, 2};
    // iteration 0 starts a file, later ones append
    for (int nn = 0; nn < 3; nn++) {
      commondata.nn = nn ? 7 : 0; commondata.time = 0.5; const int records = nn < 2 ? nn + 1 : 1;
      if (nn == 2) { commondata.nn = 0; }
%(calls)s
    }
    free(y); free(ax_); free(dg); for (int d = 0; d < 3; d++) free(gd[0].xx[d]);
    if (bad) break;
  }
  if (!bad) printf("OK %%ld %%ld\n", nslices, npts);
  return 0;
}
"""

QUANT = {
    ("REAL", "number"): "y_n_gfs[IDX4pt(SUGF, idx3)]",
    ("int", "count"): "(int)(3 * y_n_gfs[IDX4pt(SUGF, idx3)] + 1.5)",
    ("REAL", "mark"): "auxevol_gfs[IDX4pt(MARKGF, idx3)]",
    ("REAL", "diag"): "diagnostic_output_gfs[IDX4pt(VECU1GF, idx3)]",
}


def dirs(t):
    o = []
    for d in range(3):
        v = t.get(d)
        if v is None:
            o.append("{-1, {0, 0}}")
        elif v == "any":
            o.append("{0, {0, 0}}")
        else:
            o.append("{%d, {%s, %s}}" % (len(v), v[0], v[-1]))
    return "{" + ", ".join(o) + "}"


def one(cs, fp, ng, shapes, flags, scratch):
    import nrpy.grid as gri  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH import xx_tofrom_Cart as xc  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH.diagnostics import output_0d_1d_2d_nearest_gridpoint_slices as out  # pylint: disable=import-outside-toplevel

    bhah.start(2 * ng, fp)
    d = os.path.join(scratch, f"{cs}-{fp}-{ng}-{len(flags)}")
    os.makedirs(os.path.join(d, "run"))
    bhah.register_bc_gfs()
    gri.register_gridfunctions("mark", group="AUXEVOL")
    bhah.grid_and_bcs(cs, bcs=False)
    xc.register_CFunction_xx_to_Cart(cs)
    T = targets(cs)
    sym = int(bhah.family(cs) == "symtp")
    calls = ""
    for name, t in T.items():
        plane = len(name) == 2
        if name == "c":
            try:
                out.register_CFunction_diagnostics_nearest_grid_center(cs, out_quantities_dict=QUANT)
            except ValueError:
                if t == "refused":
                    continue
                raise
            fn = '"out0d-conv_factor%.2f.txt", 1.0'
            calls += 'snprintf(w, sizeof w, "grid centre, iteration case %d", nn); diagnostics_nearest_grid_center(&commondata, params, g);\n'
            if t != "refused":
                calls += f"snprintf(fn, sizeof fn, {fn}); {{ const dir D[3] = {dirs(t)}; check(fn, 1, none, D, 0, 0, records); for (int r = 0; r < nrow; r++) if (fabs(row[r][0] - 0.5) > 1e-6) fail(\"time column is %g\", row[r][0]); }}\n"
            continue
        if plane:
            out.register_CFunction_diagnostics_nearest_2d_plane(cs, out_quantities_dict=QUANT, plane=name)
        else:
            out.register_CFunction_diagnostics_nearest_1d_axis(cs, out_quantities_dict=QUANT, axis=name)
        fn = f'"out{2 if plane else 1}d-{name}-%s-conv_factor%.2f-t%08.2f.txt", "{cs}", 1.0, 0.5'
        calls += f'snprintf(w, sizeof w, "{name} {"plane" if plane else "axis"}, iteration case %d", nn); diagnostics_nearest_{"2d" if plane else "1d"}_{name}_{"plane" if plane else "axis"}(&commondata, params, xx, g); snprintf(fn, sizeof fn, {fn});\n'
        if t is None:
            calls += "empty(fn);\n"
        else:
            calls += f"{{ const dir D[3] = {dirs(t)}; check(fn, {2 if plane else 1}, {('p' + name) if plane else ('a' + name)}, D, {sym if name == 'z' else 0}, {int(not plane)} && records == 1, records); }}\n"
    src = bhah.finish(d)
    sub = dict(cs=cs, HASH=cs.upper(), tol="1e-13" if fp == "double" else "1e-5", geom=bhah.geometry_c(cs), calls=calls, s0=shapes[0], s1=shapes[1], s2=shapes[2])
    try:
        exe = bhah.compile_project(d, src, DRIVER % sub, flags=("-fopenmp", *flags))
    except vf.CompileError as e:
        return 0, 0, f"the generated code does not compile: {str(e)[-900:]}"
    r = vf.run([exe], cwd=os.path.join(d, "run"), timeout=600, env={"OMP_NUM_THREADS": "2", "ASAN_OPTIONS": "detect_leaks=0"})
    bad = [x[4:] for x in r.stdout.splitlines() if x.startswith("BAD ")]
    ok = [x for x in r.stdout.splitlines() if x.startswith("OK ")]
    if bad:
        return 0, 0, bad[0]
    if r.returncode or not ok:
        return 0, 0, f"the program ended with status {r.returncode}: {r.stderr[:700]}"
    return int(ok[0].split()[1]), int(ok[0].split()[2]), ""


def shapes_of(cs, thorough):
    fam = bhah.family(cs)
    odd = "1,2,3,4,5,6,7,8" if thorough else "2,3,4,5"
    even = "2,4,6,8,10,12,14" if thorough else "2,4,6,8"
    r = "1,2,3,5,8" if thorough else "2,3"
    if fam == "cartesian":
        return (odd, odd, odd)
    if fam == "cylindrical":
        return (r, even, odd)
    if fam == "wedge":
        return (r, odd, odd)
    return (r, odd, even)


def body(chk):
    san = ("-fsanitize=address,bounds", "-fno-sanitize-recover=bounds", "-g")
    cases = []
    for cs in bhah.COORDS:
        cases.append((cs, "double", 2, san))
        if chk.thorough:
            cases += [(cs, "double", g, ()) for g in (1, 3)] + [(cs, "float", 2, ())]
    if not chk.thorough:
        cases += [("Spherical", "float", 1, ()), ("Cartesian", "double", 3, ())]
    jobs = [(*c[:3], shapes_of(c[0], chk.thorough), c[3], chk.scratch) for c in cases]
    for c, (n, pts, e) in zip(cases, vf.pmap(one, jobs)):
        chk.count("slices", n)
        chk.count("points", pts)
        chk.outcome(c[:3])
        if e:
            chk.violation(f"{c[0]}:{c[1]}:{c[2]}", f"{c[0]}, {c[1]}, {c[2]} ghost zones: {e}", {"case": c})
    chk.sample({"system": cases[0][0], "shapes": shapes_of(cases[0][0], chk.thorough)})


if __name__ == "__main__":
    vf.main("C22", "exploration", "distinct (coordinate system, precision, ghost width)", body)
