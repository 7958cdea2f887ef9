"""C20: grid set-up, coordinate maps and time step agree with each other and with the geometry.

For every coordinate system the generated numerical_grids_and_timestep(), xx_to_Cart() and
Cart_to_xx_and_nearest_i0i1i2() are compiled and run for every grid shape, domain size, hole
radius, grid origin, Courant factor and convergence factor of the stated sets, and judged at
every grid point (and at several places inside every cell) against the geometry alone.
"""

import os

import bhah
import vf

# physical coordinates that the faces of the domain must have: (direction, face) -> C text.
SPH = {"wedge": 1, "ring": 1, "spherical": 1}


def faces(cs):
    """C expressions for the declared physical domain of direction 0, 1, 2: low and high."""
    fam = bhah.family(cs)
    hole = "Holey" in cs or fam == "wedge"
    if fam == "cartesian":
        return [("-SIZE", "SIZE")] * 3
    if fam == "cylindrical":
        return [("0", "SIZE"), ("-M_PI", "M_PI"), ("-SIZE", "SIZE")]
    if fam == "wedge":
        return [("HOLE", "SIZE"), ("M_PI/4", "3*M_PI/4"), ("-M_PI/4", "M_PI/4")]
    th = ("M_PI/4", "3*M_PI/4") if fam == "ring" else ("0", "M_PI")
    return [("HOLE" if hole else "0", "SIZE"), th, ("-M_PI", "M_PI")]


def physical(cs):
    """C statements computing the physical coordinates P[3] from the Cartesian position X[3]."""
    fam = bhah.family(cs)
    if fam == "cartesian":
        return "P[0]=X[0]; P[1]=X[1]; P[2]=X[2];"
    if fam == "cylindrical":
        return "P[0]=hypot(X[0],X[1]); P[1]=atan2(X[1],X[0]); P[2]=X[2];"
    if cs == "UWedgeHSinhSph":
        rot = "const double a=X[2], b=X[1], c=-X[0];"
    elif cs == "LWedgeHSinhSph":
        rot = "const double a=-X[2], b=X[1], c=X[0];"
    else:
        rot = "const double a=X[0], b=X[1], c=X[2];"
    if fam == "symtp":
        # prolate spheroidal: sum of the distances to the foci (0,0,+-b) is 2 sqrt(A^2+b^2)
        return rot + "const double bb=params->bScale, rho=hypot(a,b), s=0.5*(hypot(rho,c-bb)+hypot(rho,c+bb)); P[0]=sqrt(fmax(0.,(s-bb)*(s+bb))); P[1]=atan2(P[0]>1e-9?rho/P[0]:0., c/s); P[2]=atan2(b,a);"
    return rot + "P[0]=sqrt(a*a+b*b+c*c); P[1]=atan2(hypot(a,b),c); P[2]=atan2(b,a);"


DRIVER = r"""
#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
#include <stdarg.h>
#define TOL %(tol)s
#define INVERTIBLE %(invertible)d
static double vsign(double x) { return (x > 0) - (x < 0); }
%(geom)s
static commondata_struct commondata; static griddata_struct gd[MAXNUMGRIDS]; static params_struct *params;
static long npts, ngrids; static int bad;
static const char *what = "";
static void fail(const char *f, ...) { va_list a; va_start(a, f); if (bad++ > 3) exit(0); printf("BAD %%s Nxx=%%d,%%d,%%d NGHOSTS=%%d: ", what, params->Nxx0, params->Nxx1, params->Nxx2, NGHOSTS); vprintf(f, a); printf("\n"); fflush(stdout); }
static int near(double a, double b, double s) { return fabs(a - b) <= TOL * (fabs(a) + fabs(b) + s); }
static void phys(const double X[3], double P[3]) { %(physical)s }
static void grid_point(double x0, double x1, double x2, double X[3]) { ref_cart(&commondata, params, x0, x1, x2, X); }
// h[i]: proper length of the coordinate step in direction i, from the Jacobian of the map alone
static void lengths(double x0, double x1, double x2, double h[3]) {
  double J[3][3], g[3]; ref_jac(&commondata, params, x0, x1, x2, J, g);
  for (int i = 0; i < 3; i++) h[i] = sqrt(J[0][i]*J[0][i] + J[1][i]*J[1][i] + J[2][i]*J[2][i]);
}
static double judge(const int want[3], double SIZE, double HOLE, REAL *xx[3]) {
  const int N[3] = {params->Nxx0, params->Nxx1, params->Nxx2}, M[3] = {params->Nxx_plus_2NGHOSTS0, params->Nxx_plus_2NGHOSTS1, params->Nxx_plus_2NGHOSTS2};
  const double mn[3] = {params->xxmin0, params->xxmin1, params->xxmin2}, mx[3] = {params->xxmax0, params->xxmax1, params->xxmax2};
  const double dx[3] = {params->dxx0, params->dxx1, params->dxx2}, inv[3] = {params->invdxx0, params->invdxx1, params->invdxx2};
  ngrids++;
  for (int w = 0; w < 3; w++) {
    if (N[w] != want[w]) fail("Nxx%%d is %%d, should be %%d", w, N[w], want[w]);
    if (M[w] != N[w] + 2 * NGHOSTS) fail("Nxx_plus_2NGHOSTS%%d is %%d", w, M[w]);
    if (!near(dx[w] * N[w], mx[w] - mn[w], 0)) fail("dxx%%d = %%.17g does not divide the domain into Nxx cells", w, dx[w]);
    if (!near(dx[w] * inv[w], 1, 0)) fail("invdxx%%d = %%.17g is not 1/dxx = %%.17g", w, inv[w], 1 / dx[w]);
    for (int j = 0; j < M[w]; j++) if (!near(xx[w][j], mn[w] + (j - NGHOSTS + 0.5) * dx[w], mx[w] - mn[w])) fail("xx%%d[%%d] = %%.17g is not the cell centre", w, j, (double)xx[w][j]);
  }
  // the faces of the domain have the declared physical coordinates
  const double lo[3] = {%(lo)s}, hi[3] = {%(hi)s};
  for (int w = 0; w < 3; w++) for (int f = 0; f < 2; f++) {
    double c[3], X[3], P[3];
    for (int v = 0; v < 3; v++) c[v] = mn[v] + 0.37 * (mx[v] - mn[v]);
    c[w] = f ? mx[w] : mn[w];
    // step inside a little, so that angles at their ends keep their branch
    c[w] += (f ? -1 : 1) * (sizeof(REAL) == 4 ? 1e-4 : 1e-9) * (mx[w] - mn[w]);
    grid_point(c[0], c[1], c[2], X); phys(X, P);
    if (fabs(P[w] - (f ? hi[w] : lo[w])) > (sizeof(REAL) == 4 ? 3e-3 : 1e-6) * (hi[w] - lo[w])) fail("face %%d of direction %%d is at physical coordinate %%.15g, declared %%.15g", f, w, P[w], f ? hi[w] : lo[w]);
  }
  double ds = 1e38;
  for (int k = 0; k < M[2]; k++) for (int j = 0; j < M[1]; j++) for (int i = 0; i < M[0]; i++) {
    double h[3]; lengths(xx[0][i], xx[1][j], xx[2][k], h); npts++;
    for (int w = 0; w < 3; w++) ds = fmin(ds, h[w] * dx[w]);
    double X[3]; REAL Y[3]; grid_point(xx[0][i], xx[1][j], xx[2][k], X);
    xx_to_Cart(&commondata, params, xx, i, j, k, Y);
    const double o[3] = {params->Cart_originx, params->Cart_originy, params->Cart_originz};
    for (int a = 0; a < 3; a++) if (!near(Y[a], X[a] + o[a], SIZE)) fail("xx_to_Cart(%%d,%%d,%%d)[%%d] = %%.17g, should be %%.17g", i, j, k, a, (double)Y[a], X[a] + o[a]);
  }
#if INVERTIBLE
  // every interior point, and places inside its cell, map back to themselves
  static const double off[5][3] = {{0,0,0}, {0.41,-0.43,0.4}, {-0.44,0.39,-0.41}, {0.1,0.2,-0.3}, {-0.48,-0.48,0.48}};
  for (int k = NGHOSTS; k < NGHOSTS + N[2]; k++) for (int j = NGHOSTS; j < NGHOSTS + N[1]; j++) for (int i = NGHOSTS; i < NGHOSTS + N[0]; i++) for (int p = 0; p < 5; p++) {
    const int id[3] = {i, j, k}; double c[3], X[3], h[3];
    for (int w = 0; w < 3; w++) c[w] = xx[w][id[w]] + off[p][w] * dx[w];
    grid_point(c[0], c[1], c[2], X); lengths(c[0], c[1], c[2], h); npts++;
    for (int glob = 0; glob < 2; glob++) {
      REAL Y[3], r[3] = {-77,-77,-77}; int got[3] = {-7,-7,-7};
      if (glob) { for (int a = 0; a < 3; a++) Y[a] = X[a]; Cart_to_xx_and_nearest_i0i1i2_global_grid_center(&commondata, params, Y, r, got); }
      else { Y[0] = X[0] + params->Cart_originx; Y[1] = X[1] + params->Cart_originy; Y[2] = X[2] + params->Cart_originz; Cart_to_xx_and_nearest_i0i1i2(&commondata, params, Y, r, got); }
      for (int w = 0; w < 3; w++) {
        // judged as a displacement in space relative to the size of the domain, and in cells
        const double e = fabs(r[w] - c[w]) / (mx[w] - mn[w]);
        const int known = %(known)s;
        if (known) { static int said; if (!said++) printf("KNOWN %(cs)s:xx0-is-A\n"); continue; }
        const int moved = fabs(r[w] - c[w]) * h[w] <= 10 * TOL * SIZE; // within the rounding of the Cartesian position
        if (!(e <= %(rtol)s) && !moved) fail("Cart_to_xx%%s at xx = (%%.15g, %%.15g, %%.15g): xx%%d = %%.15g", glob ? " (global)" : "", c[0], c[1], c[2], w, (double)r[w]);
        if (got[w] != id[w] && !(fabs(r[w] - c[w]) > 0.01 * dx[w])) fail("nearest index%%s at xx = (%%.15g, %%.15g, %%.15g): i%%d = %%d, should be %%d", glob ? " (global)" : "", c[0], c[1], c[2], w, got[w], id[w]);
      }
    }
  }
#endif
  return ds;
}
int main(int argc, char *argv[]) {
  static const double sizes[2] = {4.0, 11.5}, holes[2] = {2.0, 0.7}, cfl[2] = {0.5, 0.37}, conv[4] = {1.0, 2.0, 1.5, 0.5};
  static const double org[2][3] = {{0,0,0}, {0.9,-1.7,2.3}};
  static const int S0[] = {%(s0)s}, S1[] = {%(s1)s}, S2[] = {%(s2)s};
#define LEN(a) (int)(sizeof a / sizeof *a)
  static char w[300]; what = w;
  for (int a = 0; a < LEN(S0); a++) for (int b = 0; b < LEN(S1); b++) for (int c = 0; c < LEN(S2); c++) for (int v = 0; v < 4; v++) {
    // the sub-cases of one shape: sizes, holes, origins, Courant and convergence factors in all pairs
    const double SIZE = sizes[v & 1], HOLE = holes[(v >> 1) & 1];
    for (int o = 0; o < 2; o++) {
      const int q = v ^ (2 * o);
      commondata_struct_set_to_default(&commondata); commondata.NUMGRIDS = 1; commondata.CFL_FACTOR = cfl[v >> 1]; commondata.convergence_factor = conv[q];
      params_struct_set_to_default(&commondata, gd);
      params = &gd[0].params; params->CoordSystem_hash = %(HASH)s; params->grid_physical_size = SIZE; %(hole)s
      params->Cart_originx = org[o][0]; params->Cart_originy = org[o][1]; params->Cart_originz = org[o][2];
      const int Nx[3] = {S0[a], S1[b], S2[c]}; int want[3];
      for (int d = 0; d < 3; d++) { want[d] = Nx[d] == 2 ? 2 : (int)(Nx[d] * conv[q]); if (want[d] < 1) want[d] = -1; }
      if (want[0] < 1 || want[1] < 1 || want[2] < 1) continue;
      snprintf(w, sizeof w, "size %%g hole %%g origin %%d convergence %%g", SIZE, HOLE, o, conv[q]);
      numerical_grid_params_Nxx_dxx_xx(&commondata, params, gd[0].xx, Nx, true);
      const double ds = judge(want, SIZE, HOLE, gd[0].xx);
      for (int big = 0; big < 2; big++) {
        const double before = big ? 1e30 : 0.5 * ds * commondata.CFL_FACTOR;
        commondata.dt = before; cfl_limited_timestep(&commondata, params, gd[0].xx);
        const double exp = fmin(before, ds * commondata.CFL_FACTOR);
        if (!near(commondata.dt, exp, 0)) fail("dt = %%.17g with dt before = %%g; the smallest neighbour distance times the Courant factor is %%.17g", (double)commondata.dt, before, ds * commondata.CFL_FACTOR);
      }
      // an explicitly given domain is kept
      if (o == 0 && v == 0) {
        for (int d = 0; d < 3; d++) free(gd[0].xx[d]);
        const double k0 = params->xxmin0, k1 = params->xxmax1;
        params->xxmin0 += 0.03; params->xxmax1 -= 0.02;
        numerical_grid_params_Nxx_dxx_xx(&commondata, params, gd[0].xx, Nx, false);
        if (!near(params->xxmin0, k0 + 0.03, 1) || !near(params->xxmax1, k1 - 0.02, 1)) fail("set_xxmin_xxmax_to_defaults = false still changed the domain");
        if (!near(gd[0].xx[0][NGHOSTS], params->xxmin0 + 0.5 * params->dxx0, 1)) fail("xx0 does not start at the given domain");
        // -1 in any direction selects the default shape
        for (int d = 0; d < 3; d++) free(gd[0].xx[d]);
        for (int d = 0; d < 3; d++) { const int My[3] = {d == 0 ? -1 : 9, d == 1 ? -1 : 9, d == 2 ? -1 : 9};
          numerical_grid_params_Nxx_dxx_xx(&commondata, params, gd[0].xx, My, true);
          const int def[3] = {%(def)s}; if (params->Nxx0 != def[0] || params->Nxx1 != def[1] || params->Nxx2 != def[2]) fail("unset direction %%d: not the default shape", d);
          if (d < 2) for (int e = 0; e < 3; e++) free(gd[0].xx[e]); }
        if (strcmp(params->CoordSystemName, "%(cs)s")) fail("CoordSystemName is %%s", params->CoordSystemName);
      }
      for (int d = 0; d < 3; d++) free(gd[0].xx[d]);
    }
  }
  // the complete set-up of the grid
  for (int first = 0; first < 2; first++) {
    commondata_struct_set_to_default(&commondata); commondata.NUMGRIDS = 0; commondata.nn = 5; commondata.nn_0 = 6; commondata.t_0 = 7; commondata.time = 8; commondata.dt = 1e-9;
    params = &gd[0].params; snprintf(w, sizeof w, "numerical_grids_and_timestep");
    numerical_grids_and_timestep(&commondata, gd, first);
    if (commondata.NUMGRIDS != 1) fail("NUMGRIDS = %%d", commondata.NUMGRIDS);
    if (params->CoordSystem_hash != %(HASH)s) fail("wrong coordinate system hash");
    if (params->grid_physical_size != 4.0) fail("grid_physical_size = %%g", (double)params->grid_physical_size);
    const int def[3] = {%(def)s}; const double ds = judge(def, 4.0, %(HOLEP)s, gd[0].xx);
    if (!near(commondata.dt, ds * commondata.CFL_FACTOR, 0)) fail("dt = %%.17g, should be %%.17g", (double)commondata.dt, ds * commondata.CFL_FACTOR);
    const int z = first ? 0 : 1;
    if (commondata.nn != 5 * z || commondata.nn_0 != 6 * z || commondata.t_0 != 7 * z || commondata.time != 8 * z) fail("iteration counters and times: %%d %%d %%g %%g", commondata.nn, commondata.nn_0, (double)commondata.t_0, (double)commondata.time);
    for (int d = 0; d < 3; d++) free(gd[0].xx[d]);
  }
  printf("OK %%ld %%ld\n", ngrids, npts);
  return 0;
}
"""


def refuses(fn):
    try:
        fn()
    except ValueError:
        return True
    return False


def project(cs, fp, scratch, tag):
    import nrpy.reference_metric as refmetric  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH import xx_tofrom_Cart as xc  # pylint: disable=import-outside-toplevel

    bhah.start(2, fp)
    d = os.path.join(scratch, tag)
    os.makedirs(d)
    bhah.register_bc_gfs()
    bhah.grid_and_bcs(cs, bcs=False)
    xc.register_CFunction_xx_to_Cart(cs)
    inv = not refuses(lambda: xc.register_CFunction__Cart_to_xx_and_nearest_i0i1i2(cs))
    inv2 = not refuses(lambda: xc.register_CFunction__Cart_to_xx_and_nearest_i0i1i2(cs, relative_to="global_grid_center"))
    rfm = refmetric.reference_metric[cs]
    return d, bhah.finish(d), inv, inv2, rfm


def one(cs, fp, shapes, scratch):
    d, src, inv, inv2, _ = project(cs, fp, scratch, f"{cs}-{fp}")
    if inv != inv2:
        return 0, 0, False, "only one of the two inverse maps is available", []
    if not inv and "v2" not in cs:
        return 0, 0, inv, "no inverse map is offered for this coordinate system", []
    f = faces(cs)
    sub = dict(
        cs=cs, HASH=cs.upper(), tol="1e-13" if fp == "double" else "3e-6", geom=bhah.geometry_c(cs), invertible=int(inv), physical=physical(cs),
        lo=", ".join(x[0] for x in f), hi=", ".join(x[1] for x in f),
        hole="params->grid_hole_radius = HOLE;" if "Holey" in cs or "Wedge" in cs else "",
        HOLEP="params->grid_hole_radius" if "Holey" in cs or "Wedge" in cs else "0",
        rtol="1e-7" if bhah.family(cs) == "symtp" else "1e-9",
        known="w == 0 && fabs(r[0] - params->AMAX * sinh(c[0] / params->SINHWAA) / sinh(1 / params->SINHWAA)) < 1e-6" if cs == "SinhSymTP" else "0",
        s0=shapes[0], s1=shapes[1], s2=shapes[2],
    )
    sub["def"] = "4,4,4"
    if fp == "float":
        sub["rtol"] = "1e-3"
    try:
        exe = bhah.compile_project(d, src, DRIVER % sub)
    except vf.CompileError as e:
        return 0, 0, inv, f"the generated code does not compile: {str(e)[-900:]}", []
    r = vf.run([exe], timeout=600, env={"OMP_NUM_THREADS": "1"})
    known = [x[6:] for x in r.stdout.splitlines() if x.startswith("KNOWN ")]
    bad = [x[4:] for x in r.stdout.splitlines() if x.startswith("BAD ")]
    ok = [x for x in r.stdout.splitlines() if x.startswith("OK ")]
    if r.returncode != 0 and not bad:
        return 0, 0, inv, f"the program ended with status {r.returncode}: {r.stderr[-300:]}", known
    n = (ok[0].split()[1:] if ok else (0, 0))
    return int(n[0]), int(n[1]), inv, "; ".join(bad[:2]), known


PAIR = r"""
#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
static double vsign(double x) { return (x > 0) - (x < 0); }
%(geom)s
int main(void) {
  static commondata_struct commondata; static griddata_struct gd[MAXNUMGRIDS];
  commondata_struct_set_to_default(&commondata);
  numerical_grids_and_timestep(&commondata, gd, true);
  double ds = 1e38; long n = 0;
  if (commondata.NUMGRIDS != %(n)d) { printf("BAD NUMGRIDS = %%d\n", commondata.NUMGRIDS); return 0; }
%(grids)s
  if (fabs(commondata.dt - ds * commondata.CFL_FACTOR) > 1e-13 * commondata.dt) { printf("BAD dt = %%.17g, but the smallest distance on any grid gives %%.17g\n", (double)commondata.dt, ds * commondata.CFL_FACTOR); return 0; }
  printf("OK %%ld\n", n);
  return 0;
}
"""

PGRID = r"""
  { params_struct *params = &gd[%(g)d].params; REAL **xx = gd[%(g)d].xx;
    if (params->CoordSystem_hash != %(HASH)s || params->grid_physical_size != %(size)s || strcmp(params->CoordSystemName, "%(cs)s")) { printf("BAD grid %(g)d is not the requested one\n"); return 0; }
    const double dx[3] = {params->dxx0, params->dxx1, params->dxx2};
    if (params->Nxx0 != 4 || params->Nxx1 != 6 || params->Nxx2 != %(n2)d) { printf("BAD grid %(g)d has shape %%d %%d %%d\n", params->Nxx0, params->Nxx1, params->Nxx2); return 0; }
    for (int k = 0; k < params->Nxx_plus_2NGHOSTS2; k++) for (int j = 0; j < params->Nxx_plus_2NGHOSTS1; j++) for (int i = 0; i < params->Nxx_plus_2NGHOSTS0; i++) {
      double J[3][3], h[3], X[3]; REAL Y[3]; n++;
      ref_jac%(s)s(&commondata, params, xx[0][i], xx[1][j], xx[2][k], J, h); ref_cart%(s)s(&commondata, params, xx[0][i], xx[1][j], xx[2][k], X);
      for (int w = 0; w < 3; w++) ds = fmin(ds, dx[w] * sqrt(J[0][w]*J[0][w] + J[1][w]*J[1][w] + J[2][w]*J[2][w]));
      xx_to_Cart(&commondata, params, xx, i, j, k, Y);
      for (int w = 0; w < 3; w++) if (fabs(X[w] - Y[w]) > 1e-12 * %(size)s) { printf("BAD grid %(g)d: xx_to_Cart gives the wrong point\n"); return 0; }
    } }
"""


def several(systems, scratch):
    """Several grids at once: each gets its own geometry, the time step is the smallest of all."""
    import nrpy.params as par  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH import numerical_grids_and_timestep as ng  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH import xx_tofrom_Cart as xc  # pylint: disable=import-outside-toplevel
    from nrpy.infrastructures.BHaH.MoLtimestepping import MoL  # pylint: disable=import-outside-toplevel

    bhah.start(2)
    d = os.path.join(scratch, "multi-" + "-".join(systems))
    os.makedirs(d)
    bhah.register_bc_gfs()
    MoL.register_CFunctions(register_MoL_step_forward_in_time=False)
    par.set_parval_from_str("CoordSystem_to_register_CodeParameters", "All")
    size = [3.0 + 2.5 * i for i in range(len(systems))]
    ng.register_CFunctions(list_of_CoordSystems=list(systems), list_of_grid_physical_sizes=size, Nxx_dict={c: [4, 6, 2 + 2 * i] for i, c in enumerate(systems)}, enable_CurviBCs=False)
    for cs in systems:
        xc.register_CFunction_xx_to_Cart(cs)
    src = bhah.finish(d)
    geom = grids = ""
    for i, cs in enumerate(systems):
        geom += bhah.geometry_c(cs, f"_{i}")
        grids += PGRID % dict(g=i, HASH=cs.upper(), size=size[i], cs=cs, s=f"_{i}", n2=2 + 2 * i)
    try:
        exe = bhah.compile_project(d, src, PAIR % dict(geom=geom, grids=grids, n=len(systems)))
    except vf.CompileError as e:
        return 0, f"the generated code does not compile: {str(e)[-900:]}"
    r = vf.run([exe], timeout=60, env={"OMP_NUM_THREADS": "1"})
    if r.returncode or not r.stdout.startswith("OK"):
        return 0, r.stdout[:300] or f"status {r.returncode}"
    return int(r.stdout.split()[1]), ""


def body(chk):
    shapes = ("2,4,5", "2,4,7", "2,4,5") if not chk.thorough else ("2,3,4,5,6,9", "2,3,4,5,6,7", "2,3,4,6,8")
    cases = [(cs, "double") for cs in bhah.COORDS] + [(cs, "float") for cs in ("Spherical", "Cartesian", "SinhCylindrical", "SinhSpherical")]
    jobs = [(cs, fp, shapes, chk.scratch) for cs, fp in cases]
    for (cs, fp), (n, pts, inv, e, known) in zip(cases, vf.pmap(one, jobs)):
        chk.count("grids", n)
        chk.count("points", pts)
        chk.outcome((cs, fp, inv))
        for k in known:
            chk.violation(k, f"{cs}: Cart_to_xx returns the prolate spheroidal A instead of xx0 (not inverted through the sinh map)", {"case": [cs, fp]})
        if e:
            chk.violation(f"{cs}:{fp}", f"{cs} ({fp}): {e}", {"case": [cs, fp]})
    base = ("Spherical", "Cartesian", "SinhCylindrical", "SinhSymTP", "HoleySinhSpherical", "SinhSphericalv2n2")
    multi = [(a, b) for a in base[: 6 if chk.thorough else 3] for b in base if a != b]
    multi += [("Cartesian", "Spherical", "Cylindrical")]
    for m, (n, e) in zip(multi, vf.pmap(several, [(m, chk.scratch) for m in multi])):
        chk.count("points", n)
        chk.count("grids", len(m))
        chk.outcome(m)
        if e:
            chk.violation("multi:" + "+".join(m), f"grids {', '.join(m)}: {e}", {"systems": m})
    chk.sample({"shapes": shapes, "systems": cases[0]})


if __name__ == "__main__":
    vf.main("C20", "exploration", "distinct (coordinate system, precision, invertible) and sets of grids", body)
