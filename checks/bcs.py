"""Driver program for the boundary-condition checks C11 and C12 (see there)."""

import itertools
import os
import shutil

import bhah
import vf

PREFIX = r"""
#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
#include <stdarg.h>
static double vsign(double x) { return (x > 0) - (x < 0); }
#define NG NGHOSTS
#define TOL %(tol)s
#define RADORDER %(rad)d
#define MAXPT 20000
%(geom)s
static commondata_struct commondata; static griddata_struct gd; static params_struct *params;
static REAL *xx[3]; static int N[3], M[3], ntot; static bc_struct bc;
static double X[MAXPT][3], E[MAXPT][3][3], J[MAXPT][3][3]; static char canon[MAXPT], interior[MAXPT]; static int twin[MAXPT];
static int which_par[10] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9};
#define ID(i, j, k) ((i) + M[0] * ((j) + M[1] * (k)))
#define EACH for (int k = 0; k < M[2]; k++) for (int j = 0; j < M[1]; j++) for (int i = 0; i < M[0]; i++)
static void fail(const char *f, ...) { va_list a; va_start(a, f); printf("BAD NGHOSTS=%%d N=%%d,%%d,%%d: ", NG, N[0], N[1], N[2]); vprintf(f, a); printf("\n"); exit(0); }
static int canonical(double x0, double x1, double x2) { %(canon)s }
// the ten tensor components, in the order the gridfunctions were registered, found by name
static const int comp_of[10] = { SUGF, VECU0GF, VECU1GF, VECU2GF, TENDD00GF, TENDD01GF, TENDD02GF, TENDD11GF, TENDD12GF, TENDD22GF };
static const int ca[10] = {-1, 0, 1, 2, 0, 0, 0, 1, 1, 2}, cb[10] = {-1, -1, -1, -1, 0, 1, 2, 1, 2, 2};
static double parity_of(int p, int q, int c) {
  double s = 1;
  for (int w = 0; w < 2; w++) { const int a = w ? cb[c] : ca[c]; if (a < 0) continue; double t = 0; for (int m = 0; m < 3; m++) t += E[p][m][a] * E[q][m][a]; s *= t; }
  return s;
}
static double field(int p, int c) {
  const double x = X[p][0], y = X[p][1], z = X[p][2];
  const double V[3] = {0.3 + 0.21*x - 0.4*y*z + 0.11*z, -0.7 + 0.5*z + 0.13*x*x - 0.3*y, 1.1 - 0.23*y + 0.17*x*z + 0.6*x};
  const double T[3][3] = {{0.9 + 0.31*x*y, -0.4 + 0.2*z, 0.25 - 0.37*y}, {-0.4 + 0.2*z, 1.7 - 0.12*x*z, 0.6 + 0.41*x}, {0.25 - 0.37*y, 0.6 + 0.41*x, -1.2 + 0.19*y*z}};
  if (c == 0) return 1.3 + 0.7*x - 0.4*y + 0.9*z + 0.2*x*y - 0.15*y*z + 0.05*x*x*z;
  double s = 0;
  if (c < 4) { for (int m = 0; m < 3; m++) s += E[p][m][ca[c]] * V[m]; return s; }
  for (int m = 0; m < 3; m++) for (int n = 0; n < 3; n++) s += E[p][m][ca[c]] * T[m][n] * E[p][n][cb[c]];
  return s;
}
static int close_to(double a, double b, double scale) { return fabs(a - b) <= TOL * (fabs(b) + scale); }
static void setup(int n0, int n1, int n2) {
  const int Nx[3] = {n0, n1, n2};
  N[0] = n0; N[1] = n1; N[2] = n2;
  commondata_struct_set_to_default(&commondata); commondata.NUMGRIDS = 1;
  params_struct_set_to_default(&commondata, &gd);
  params = &gd.params;
  params->CoordSystem_hash = %(HASH)s; params->grid_physical_size = 4.0;
  %(hole)s
  numerical_grid_params_Nxx_dxx_xx(&commondata, params, gd.xx, Nx, true);
  for (int w = 0; w < 3; w++) xx[w] = gd.xx[w];
  M[0] = params->Nxx_plus_2NGHOSTS0; M[1] = params->Nxx_plus_2NGHOSTS1; M[2] = params->Nxx_plus_2NGHOSTS2; ntot = M[0]*M[1]*M[2];
  for (int w = 0; w < 3; w++) if (M[w] != N[w] + 2*NG) fail("direction %%d has %%d points in all", w, M[w]);
  memset(&bc, 0, sizeof bc);
  EACH { const int p = ID(i,j,k); double h[3];
    ref_cart(&commondata, params, xx[0][i], xx[1][j], xx[2][k], X[p]);
    ref_jac(&commondata, params, xx[0][i], xx[1][j], xx[2][k], J[p], h);
    for (int a = 0; a < 3; a++) for (int m = 0; m < 3; m++) E[p][m][a] = J[p][m][a] / h[a];
    canon[p] = canonical(xx[0][i], xx[1][j], xx[2][k]);
    interior[p] = i >= NG && i < N[0]+NG && j >= NG && j < N[1]+NG && k >= NG && k < N[2]+NG;
    if (interior[p] && !canon[p]) fail("harness: interior point %%d is not canonical", p);
  }
  for (int p = 0; p < ntot; p++) { twin[p] = p; if (canon[p]) continue; int nf = 0;
    const double nrm = sqrt(X[p][0]*X[p][0]+X[p][1]*X[p][1]+X[p][2]*X[p][2]);
    for (int q = 0; q < ntot; q++) if (canon[q]) { double d = 0; for (int m = 0; m < 3; m++) d += (X[p][m]-X[q][m])*(X[p][m]-X[q][m]); if (sqrt(d) < %(twintol)s * nrm) { twin[p] = q; nf++; } }
    if (nf != 1) fail("harness: ghost point %%d has %%d twins", p, nf);
  }
  bcstruct_set_up(&commondata, params, xx, &bc);
}
static void teardown(void) { free(bc.inner_bc_array); for (int n = 0; n < NG*3; n++) free(bc.pure_outer_bc_array[n]); for (int w = 0; w < 3; w++) free(gd.xx[w]); }
"""

INNER = r"""
static void check(void) {
  const int ni = bc.bc_info.num_inner_boundary_points;
  static int seen[MAXPT]; memset(seen, 0, sizeof seen);
  for (int n = 0; n < ni; n++) {
    const int d = bc.inner_bc_array[n].dstpt, s = bc.inner_bc_array[n].srcpt;
    if (d < 0 || d >= ntot || s < 0 || s >= ntot) fail("inner point list holds index %d <- %d", d, s);
    if (seen[d]++) fail("point %d is listed twice as an inner boundary point", d);
    if (canon[d]) fail("point %d is listed as an inner boundary point but no other grid point has its position", d);
    if (s != twin[d]) fail("inner point %d copies from %d, but the point at its position is %d", d, s, twin[d]);
    for (int c = 0; c < 10; c++) { const double w = parity_of(d, s, c); if (bc.inner_bc_array[n].parity[which_par[c]] != (w > 0 ? 1 : -1)) fail("inner point %d type %d has parity %d, want %g", d, c, bc.inner_bc_array[n].parity[c], w); }
  }
  for (int p = 0; p < ntot; p++) if (!canon[p] && !seen[p]) fail("ghost point %d coincides with %d but is not listed as an inner boundary point", p, twin[p]);
  REAL *g = malloc(sizeof(REAL) * NUM_EVOL_GFS * ntot);
  for (int c = 0; c < 10; c++) for (int p = 0; p < ntot; p++) g[comp_of[c]*ntot + p] = canon[p] ? field(p, c) : 0.0/0.0;
  apply_bcs_inner_only(&commondata, params, &bc, g);
  for (int c = 0; c < 10; c++) for (int p = 0; p < ntot; p++) {
    const double w = field(p, c), v = g[comp_of[c]*ntot + p];
    if (canon[p] && v != (REAL)w) fail("point %d component %d is not an inner boundary point but changed from %.15g to %.15g", p, c, w, v);
    if (!close_to(v, w, 1.0 + pow(fabs(X[p][0]) + fabs(X[p][1]) + fabs(X[p][2]), 3))) fail("inner point %d component %d is %.15g, but the field there is %.15g", p, c, v, w);
  }
  free(g);
}
"""

OUTER = r"""
static double gen(int c, int p) { unsigned u = 2654435761u * (unsigned)(p * 31 + c * 7919 + 17); u ^= u >> 13; u *= 1274126177u; u ^= u >> 16; return (u & 0xffff) / 65536.0 * 2 - 1; }
static int depth(int i, int w) { return i < NG ? NG - i : i >= N[w] + NG ? i - (N[w] + NG) + 1 : 0; }
// the documented fill order: layer by layer outward; in each layer the x0, x1, then x2 faces
static void face_of(int i, int j, int k, int *layer, int *dirn) {
  const int d[3] = {depth(i, 0), depth(j, 1), depth(k, 2)};
  *layer = d[0] > d[1] ? d[0] : d[1]; if (d[2] > *layer) *layer = d[2];
  *dirn = d[2] == *layer ? 2 : d[1] == *layer ? 1 : 0;
}
static void sets(void) {
  static int seen[MAXPT]; memset(seen, 0, sizeof seen);
  for (int g = 0; g < NG; g++) for (int d = 0; d < 3; d++) for (int n = 0; n < bc.bc_info.num_pure_outer_boundary_points[g][d]; n++) {
    const outerpt_bc_struct *o = &bc.pure_outer_bc_array[d + 3*g][n];
    if (o->i0 < 0 || o->i0 >= M[0] || o->i1 < 0 || o->i1 >= M[1] || o->i2 < 0 || o->i2 >= M[2]) fail("outer point list holds %d,%d,%d", o->i0, o->i1, o->i2);
    const int p = ID(o->i0, o->i1, o->i2); int L, D; face_of(o->i0, o->i1, o->i2, &L, &D);
    if (seen[p]++) fail("outer point %d,%d,%d listed twice", o->i0, o->i1, o->i2);
    if (!canon[p] || interior[p]) fail("point %d,%d,%d is listed as an outer boundary point but is not one", o->i0, o->i1, o->i2);
    if (L != g + 1 || D != d) fail("outer point %d,%d,%d is in layer %d direction %d, want %d, %d", o->i0, o->i1, o->i2, g, d, L - 1, D);
    const int f[3] = {o->FACEX0, o->FACEX1, o->FACEX2}, q[3] = {o->i0, o->i1, o->i2};
    for (int w = 0; w < 3; w++) if (f[w] != (w == D ? (q[w] < NG ? 1 : -1) : 0)) fail("outer point %d,%d,%d has face %d,%d,%d", q[0], q[1], q[2], f[0], f[1], f[2]);
  }
  for (int p = 0; p < ntot; p++) if (canon[p] && !interior[p] && !seen[p]) fail("outer ghost point %d is filled by nobody", p);
}
static void inner_of(double *e) { for (int c = 0; c < 10; c++) for (int p = 0; p < ntot; p++) if (!canon[p]) e[c*ntot+p] = (parity_of(p, twin[p], c) > 0 ? 1 : -1) * e[c*ntot+twin[p]]; }
static void extrap(void) {
  REAL *g = malloc(sizeof(REAL) * NUM_EVOL_GFS * ntot); double *e = malloc(sizeof(double) * 10 * ntot);
  for (int c = 0; c < 10; c++) for (int p = 0; p < ntot; p++) { g[comp_of[c]*ntot+p] = interior[p] ? gen(c, p) : 0.0/0.0; e[c*ntot+p] = g[comp_of[c]*ntot+p]; }
  apply_bcs_outerextrap_and_inner(&commondata, params, &bc, g);
  for (int c = 0; c < 10; c++) for (int w = 2; w >= 0; w--) {  // extend along x2, then x1, then x0: the order does not matter
    const int st = w == 0 ? 1 : w == 1 ? M[0] : M[0]*M[1];
    for (int side = 0; side < 2; side++) for (int dd = 1; dd <= NG; dd++) EACH {
      const int q[3] = {i, j, k}, p = ID(i,j,k);
      if (!canon[p] || depth(q[w], w) != dd || (q[w] < NG) != (side == 0)) continue;
      int later = 0; for (int v = 0; v < w; v++) if (depth(q[v], v)) later = 1;
      if (later) continue;
      const int s = side == 0 ? st : -st; double *f = e + c*ntot;
      f[p] = 3*f[p+s] - 3*f[p+2*s] + f[p+3*s];
    }
  }
  inner_of(e);
  for (int c = 0; c < 10; c++) EACH { const int p = ID(i,j,k); const double v = g[comp_of[c]*ntot+p], w = e[c*ntot+p];
    if (interior[p] ? v != w : !close_to(v, w, 50.0)) fail("extrapolation: component %d at %d,%d,%d is %.15g, want %.15g", c, i, j, k, v, w); }
  free(g); free(e);
}
static double poly(int c, double x0, double x1, double x2, double d[3]) {
  const double x[3] = {x0, x1, x2}; double v = 0.4 + 0.1*c; d[0] = d[1] = d[2] = 0;
  for (int a = 0; a <= RADORDER; a++) for (int b = 0; b <= RADORDER; b++) { const int cc = (a + 2*b + c) % (RADORDER + 1);
    const double k = 0.3 * (((a*5 + b*3 + c) % 7) - 3); int e[3] = {a, b, cc}; double m[3], dm[3];
    for (int w = 0; w < 3; w++) { m[w] = pow(x[w], e[w]); dm[w] = e[w] ? e[w] * pow(x[w], e[w]-1) : 0; }
    v += k*m[0]*m[1]*m[2]; d[0] += k*dm[0]*m[1]*m[2]; d[1] += k*m[0]*dm[1]*m[2]; d[2] += k*m[0]*m[1]*dm[2]; }
  return v;
}
static void radial(int p, int c, double x0, double x1, double x2, double *f, double *r, double *drf) {
  double d[3]; *f = poly(c, x0, x1, x2, d);
  *r = sqrt(X[p][0]*X[p][0]+X[p][1]*X[p][1]+X[p][2]*X[p][2]);
  const double (*A)[3] = (const double (*)[3])J[p]; double det = 0, u[3] = {0};
  for (int a = 0; a < 3; a++) det += A[0][a] * (A[1][(a+1)%3]*A[2][(a+2)%3] - A[1][(a+2)%3]*A[2][(a+1)%3]);
  for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) u[a] += (A[(b+1)%3][(a+1)%3]*A[(b+2)%3][(a+2)%3] - A[(b+1)%3][(a+2)%3]*A[(b+2)%3][(a+1)%3]) / det * X[p][b] / *r;
  *drf = u[0]*d[0] + u[1]*d[1] + u[2]*d[2];
}
static void radiation(void) {
  REAL *g = malloc(sizeof(REAL) * NUM_EVOL_GFS * ntot), *h = malloc(sizeof(REAL) * NUM_EVOL_GFS * ntot), *g0 = malloc(sizeof(REAL) * NUM_EVOL_GFS * ntot); double *e = malloc(sizeof(double) * 10 * ntot), tmp[3], *sc = calloc(10 * ntot, sizeof(double));
  REAL cw[NUM_EVOL_GFS], fi[NUM_EVOL_GFS];
  for (int c = 0; c < 10; c++) { cw[comp_of[c]] = 0.5 + 0.125*c; fi[comp_of[c]] = 0.25*c - 1; EACH { const int p = ID(i,j,k); g[comp_of[c]*ntot+p] = poly(c, xx[0][i], xx[1][j], xx[2][k], tmp); h[comp_of[c]*ntot+p] = e[c*ntot+p] = interior[p] ? gen(c, p) : 0.0/0.0; } }
  memcpy(g0, g, sizeof(REAL) * NUM_EVOL_GFS * ntot);
  apply_bcs_outerradiation_and_inner(&commondata, params, &bc, xx, cw, fi, g, h);
  if (memcmp(g, g0, sizeof(REAL) * NUM_EVOL_GFS * ntot)) fail("radiation: the fields changed");
  for (int c = 0; c < 10; c++) for (int L = 1; L <= NG; L++) for (int D = 0; D < 3; D++) EACH {
    const int p = ID(i,j,k); int l, d; if (!canon[p] || interior[p]) continue; face_of(i, j, k, &l, &d); if (l != L || d != D) continue;
    int q[3] = {i, j, k}; q[D] += q[D] < NG ? 1 : -1; const int s = ID(q[0], q[1], q[2]); double f, r, fr, f1, r1, fr1; const double w = cw[comp_of[c]], in = fi[comp_of[c]];
    radial(p, c, xx[0][i], xx[1][j], xx[2][k], &f, &r, &fr); radial(s, c, xx[0][q[0]], xx[1][q[1]], xx[2][q[2]], &f1, &r1, &fr1);
    e[c*ntot+p] = -w*(fr + (f-in)/r) + pow(r1/r, 3) * (e[c*ntot+s] + w*(fr1 + (f1-in)/r1));
    sc[c*ntot+p] = fabs(fr) + fabs(fr1) + fabs(f) + sc[c*ntot+s];
  }
  inner_of(e);
  for (int c = 0; c < 10; c++) EACH { const int p = ID(i,j,k); const double v = h[comp_of[c]*ntot+p], w = e[c*ntot+p];
    if (interior[p] ? v != w : !close_to(v, w, 50.0 + 100*sc[c*ntot+twin[p]])) fail("radiation: component %d at %d,%d,%d is %.15g, want %.15g", c, i, j, k, v, w); }
  free(g); free(h); free(g0); free(e); free(sc);
}
static void check(void) { sets(); extrap(); %s }
"""

MAIN = r"""
int main(int argc, char **argv) {
  long n = 0, pts = 0;
  for (int a = 1; a + 2 < argc; a += 3) { setup(atoi(argv[a]), atoi(argv[a+1]), atoi(argv[a+2])); check(); pts += ntot; n++; teardown(); }
  printf("OK %ld %ld\n", n, pts);
  return 0;
}
"""

CANON = {
    "spherical": "return x0 > 0 && x1 > 0 && x1 < M_PI && x2 > -M_PI && x2 < M_PI;",
    "symtp": "return x0 > 0 && x1 > 0 && x1 < M_PI && x2 > -M_PI && x2 < M_PI;",
    "ring": "return x1 > 0 && x1 < M_PI && x2 > -M_PI && x2 < M_PI;",
    "cylindrical": "return x0 > 0 && x1 > -M_PI && x1 < M_PI;",
    "cartesian": "return 1;",
    "wedge": "return 1;",
}


# milder stretching than the default, so that roundoff stays small on these coarse grids
SINHW = {
    "spherical": "params->SINHW = 0.5;",
    "symtp": "params->SINHWAA = 0.5;",
    "cylindrical": "params->SINHWRHO = 0.5; params->SINHWZ = 0.6;",
    "cartesian": "params->SINHWXYZ = 0.5;",
}


def sizes(cs, ng, thorough):
    fam = bhah.family(cs)
    if fam in ("spherical", "symtp"):
        n1 = (2, 3, 4, 5, 6) if fam == "symtp" else (2, 3, 4, 5)
        r = list(itertools.product((3, 4), n1, (2, 4, 6)))
        if thorough:
            r = list(itertools.product((3, 4, 5, 6), (1, 2, 3, 4, 5, 6, 7, 8) if fam == "symtp" else (1, 2, 3, 4, 5, 6, 7), (2, 4, 6, 8)))
    elif fam in ("ring", "wedge"):
        r = list(itertools.product((3, 4), (2 * ng + 1, 2 * ng + 2), (2, 4) if fam == "ring" else (3, 4)))
    elif fam == "cylindrical":
        r = list(itertools.product((3, 4) if not thorough else (3, 4, 5, 6), (2, 4, 6) if not thorough else (2, 4, 6, 8, 10), (3, 4) if not thorough else (3, 4, 5, 6)))
    else:
        r = list(itertools.product((3, 4) if not thorough else (3, 4, 5, 6), (3, 5) if not thorough else (3, 4, 5, 6), (3, 4) if not thorough else (3, 4, 5, 6)))
    return [s for s in r if (s[0] + 2 * ng) * (s[1] + 2 * ng) * (s[2] + 2 * ng) <= 20000]


def run(cs, ng, fp, rad, mode, thorough, scratch, flags=(), threads="3"):
    """Returns (grids, points, error)."""
    d = os.path.join(scratch, f"bc-{mode}-{cs}-{ng}-{fp}-{rad}-{threads}")
    shutil.rmtree(d, ignore_errors=True)
    bhah.start(fd_order=2 * ng, fp=fp)
    bhah.register_bc_gfs()
    bhah.grid_and_bcs(cs, rad_order=rad)
    src = bhah.finish(d)
    sub = {
        "geom": bhah.geometry_c(cs),
        "tol": "1e-9" if fp == "double" else "2e-5",
        "twintol": "1e-9" if fp == "double" else "3e-6",
        "rad": rad,
        "HASH": cs.upper(),
        "canon": CANON[bhah.family(cs)],
        "hole": "params->grid_hole_radius = 1.0;" if "Holey" in cs or "Wedge" in cs else SINHW.get(bhah.family(cs), "") * ("Sinh" in cs),
    }
    prog = PREFIX % sub + (INNER if mode == "inner" else OUTER.replace("%s }", ("radiation(); }" if fp == "double" else "}"))) + MAIN
    try:
        exe = bhah.compile_project(d, src, prog, flags=["-fopenmp", *flags])
    except vf.CompileError as e:
        return 0, 0, "does not compile: " + str(e)[-600:]
    args = [str(x) for s in sizes(cs, ng, thorough) for x in s]
    p = vf.run([exe] + args, env={"OMP_NUM_THREADS": threads, "OMP_WAIT_POLICY": "passive"})
    shutil.rmtree(d)
    if not p.stdout.startswith("OK"):
        return 0, 0, (p.stdout.strip()[:300] + " " + p.stderr.strip()[:300]) or f"died {p.returncode}"
    a, b = p.stdout.split()[1:3]
    return int(a), int(b), None
