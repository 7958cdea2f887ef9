"""C13: generated time steps perform exactly the tabulated Runge-Kutta method.

Every method of the dictionary is generated (BHaH and superB steppers, with and without the
reference-metric and boundary-condition pointers, one to three grids, with and without auxiliary
gridfunctions), compiled with the address sanitizer, and run for several steps on a right-hand side
nonlinear in state and time that reads ghost points only the post-step hook sets. All storage the
step may not rely on (fresh allocations, ghost points of stage derivatives, the diagnostic buffers
between steps) is filled with NaN. Reference: a direct evaluation of the Butcher table.
The tables themselves: all rooted trees up to the stated order, and the published coefficients.
"""

import functools
import os
import shutil

import mpmath as mpm
import sympy as sp

import bhah
import vf

import nrpy.grid as gri
from nrpy.infrastructures.BHaH.MoLtimestepping.RK_Butcher_Table_Dictionary import generate_Butcher_tables

OMPENV = {"OMP_NUM_THREADS": "2", "OMP_WAIT_POLICY": "passive", "ASAN_OPTIONS": "detect_leaks=0:max_malloc_fill_size=1000000000:malloc_fill_byte=255:exitcode=77"}
R = sp.Rational
# Published tables, (c, A rows below the diagonal, b).
PUBLISHED = {
    "Euler": ([0], [[]], [1]),
    "RK2 Heun": ([0, 1], [[], [1]], [R(1, 2), R(1, 2)]),
    "RK2 MP": ([0, R(1, 2)], [[], [R(1, 2)]], [0, 1]),
    "RK2 Ralston": ([0, R(2, 3)], [[], [R(2, 3)]], [R(1, 4), R(3, 4)]),
    "RK3": ([0, R(1, 2), 1], [[], [R(1, 2)], [-1, 2]], [R(1, 6), R(2, 3), R(1, 6)]),
    "RK3 Heun": ([0, R(1, 3), R(2, 3)], [[], [R(1, 3)], [0, R(2, 3)]], [R(1, 4), 0, R(3, 4)]),
    "RK3 Ralston": ([0, R(1, 2), R(3, 4)], [[], [R(1, 2)], [0, R(3, 4)]], [R(2, 9), R(1, 3), R(4, 9)]),
    "SSPRK3": ([0, 1, R(1, 2)], [[], [1], [R(1, 4), R(1, 4)]], [R(1, 6), R(1, 6), R(2, 3)]),
    "RK4": ([0, R(1, 2), R(1, 2), 1], [[], [R(1, 2)], [0, R(1, 2)], [0, 0, 1]], [R(1, 6), R(1, 3), R(1, 3), R(1, 6)]),
    "DP5": (
        [0, R(1, 5), R(3, 10), R(4, 5), R(8, 9), 1, 1],
        [[], [R(1, 5)], [R(3, 40), R(9, 40)], [R(44, 45), R(-56, 15), R(32, 9)], [R(19372, 6561), R(-25360, 2187), R(64448, 6561), R(-212, 729)], [R(9017, 3168), R(-355, 33), R(46732, 5247), R(49, 176), R(-5103, 18656)], [R(35, 384), 0, R(500, 1113), R(125, 192), R(-2187, 6784), R(11, 84)]],
        [R(35, 384), 0, R(500, 1113), R(125, 192), R(-2187, 6784), R(11, 84), 0],
    ),
    "CK5": (
        [0, R(1, 5), R(3, 10), R(3, 5), 1, R(7, 8)],
        [[], [R(1, 5)], [R(3, 40), R(9, 40)], [R(3, 10), R(-9, 10), R(6, 5)], [R(-11, 54), R(5, 2), R(-70, 27), R(35, 27)], [R(1631, 55296), R(175, 512), R(575, 13824), R(44275, 110592), R(253, 4096)]],
        [R(37, 378), 0, R(250, 621), R(125, 594), 0, R(512, 1771)],
    ),
}


# ------------------------------------------------------------------ tables
@functools.lru_cache(None)
def trees(n):
    """All rooted trees with n nodes, as nested sorted tuples."""
    out = set()

    def rec(rem, top, cur):
        if rem == 0:
            out.add(tuple(sorted(cur)))
            return
        for k in range(min(rem, top), 0, -1):
            for t in trees(k):
                rec(rem - k, k, cur + [t])

    rec(n - 1, n - 1, [])
    return sorted(out)


def size(t):
    return 1 + sum(size(x) for x in t)


def gamma(t):
    r = size(t)
    for x in t:
        r *= gamma(x)
    return r


def num(x):
    return mpm.mpf(str(sp.N(sp.sympify(x), 60)))


def split(T):
    """(c, A, [(label, b)]) of a table in the dictionary's layout."""
    n = 1 if T[-1][0] == "" else 2
    s = len(T) - n
    A = [[sp.sympify(T[i][j + 1]) if j + 1 < len(T[i]) else sp.Integer(0) for j in range(s)] for i in range(s)]
    b = [(T[k][0], [sp.sympify(T[k][j + 1]) if j + 1 < len(T[k]) else sp.Integer(0) for j in range(s)]) for k in range(len(T) - n, len(T))]
    return [sp.sympify(r[0]) for r in T[:s]], A, b


def table(name, extra):
    """Order conditions of one table. Returns (conditions evaluated, list of errors)."""
    mpm.mp.dps = 50
    T, order = generate_Butcher_tables()[name]
    c, A, bs = split(T)
    s = len(c)
    errs, nev = [], 0
    An = [[num(x) for x in row] for row in A]
    memo = {}

    def phi(t):
        if t not in memo:
            r = [mpm.mpf(1)] * s
            for x in t:
                p = phi(x)
                r = [r[i] * sum((An[i][j] * p[j] for j in range(i)), mpm.mpf(0)) for i in range(s)]
            memo[t] = r
        return memo[t]

    tol = mpm.mpf(10) ** -15
    for i in range(s):
        nev += 1
        if any(A[i][j] != 0 for j in range(i, s)):
            errs.append(f"row {i} is not explicit")
        if abs(sum(An[i]) - num(c[i])) > tol:
            errs.append(f"row {i}: the coefficients do not add up to c={c[i]}")
    for label, b in bs:
        want = order - (1 if label == "LO" else 0)
        bn = [num(x) for x in b]
        for n in range(1, want + 1 + extra):
            for t in trees(n):
                nev += 1
                r = abs(sum(x * p for x, p in zip(bn, phi(t))) - mpm.mpf(1) / gamma(t))
                if r > tol and n <= want:
                    errs.append(f"order-{n} condition of tree {t} fails by {mpm.nstr(r, 3)} (weights {label or 'b'}, stated order {order})")
    if name in PUBLISHED:
        pc, pA, pb = PUBLISHED[name]
        nev += 1
        if [sp.sympify(x) for x in pc] != c or [[sp.sympify(x) for x in row] + [0] * (s - len(row)) for row in pA] != A or [sp.sympify(x) for x in pb] != bs[0][1]:
            errs.append("is not the published table of that name")
    return nev, errs


def adams(order):
    T = generate_Butcher_tables(generate_adams_bashforth_method=True, adams_bashforth_order=order)["AB"][0]
    errs, nev = [], 0
    for row in range(order):
        b = [sp.sympify(x) for x in T[row]]
        for d in range(row + 1):
            nev += 1
            if sum(x * sp.Integer(-j) ** d if not (j == 0 and d == 0) else x for j, x in enumerate(b)) != R(1, d + 1):
                errs.append(f"Adams-Bashforth of order {row + 1} does not integrate degree {d}")
    return nev, errs


# ------------------------------------------------------------------ generated steps
DRIVER = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
#define MAXG 3
#define NG NGHOSTS
#define NST @NST@
static const double Bc[NST] = {@C@};
static const double Ba[NST][NST] = {@A@};
static const double Bb[NST] = {@B@};
static commondata_struct cd;
static griddata_struct gd[MAXG];
static int NGRIDS;
static double t0, DT;  /* of the current step */
static long nev;
static int stage;            /* number of right-hand side sweeps begun */
static int rhs_done[MAXG], post_done[MAXG], pp_done;
static void bad(const char *w, double a, double b) { printf("BAD %s: %.17g vs %.17g (grids %d, step %d, stage %d)\n", w, a, b, NGRIDS, cd.nn, stage); exit(0); }
static int dim(const params_struct *p, int k) { return k == 0 ? p->Nxx_plus_2NGHOSTS0 : k == 1 ? p->Nxx_plus_2NGHOSTS1 : p->Nxx_plus_2NGHOSTS2; }
static int tot(const params_struct *p) { return dim(p, 0) * dim(p, 1) * dim(p, 2); }
static int interior(const params_struct *p, int i) {
  int i0 = i % dim(p, 0), i1 = (i / dim(p, 0)) % dim(p, 1), i2 = i / dim(p, 0) / dim(p, 1);
  return i0 >= NG && i0 < dim(p, 0) - NG && i1 >= NG && i1 < dim(p, 1) - NG && i2 >= NG && i2 < dim(p, 2) - NG;
}
static int near_in(const params_struct *p, int i) { /* nearest interior point */
  int q[3] = {i % dim(p, 0), (i / dim(p, 0)) % dim(p, 1), i / dim(p, 0) / dim(p, 1)};
  for (int k = 0; k < 3; k++) { if (q[k] < NG) q[k] = NG; if (q[k] >= dim(p, k) - NG) q[k] = dim(p, k) - NG - 1; }
  return q[0] + dim(p, 0) * (q[1] + dim(p, 1) * q[2]);
}
/* the problem: y' = f(t, y, aux, neighbours), ghosts = g(nearest interior point) */
static void F(int g, const params_struct *p, double t, const double *y, double *k) {
  const int n = tot(p);
  for (int i = 0; i < n; i++) if (interior(p, i)) {
    const double *a = y, *b = y + n;
    const double aux = NUM_AUXEVOL_GFS > 0 ? 0.1 * (g + 1) + 0.01 * (i % 5) : 0.0;
    double nb = a[i - 1] + a[i + dim(p, 0)] - b[i + 1] + b[i - dim(p, 0)] - a[i - dim(p, 0) * dim(p, 1)];
    k[i] = sin(t) * b[i] + 0.3 * a[i] * a[i] + 0.05 * nb + aux;
    k[n + i] = cos(a[i]) + 0.7 * t - 0.02 * nb * b[i] + 0.11 * g;
    k[2 * n + i] = a[i] - b[i] * y[2 * n + i] + 0.3 * t * t;
  }
}
static void G(const params_struct *p, double *y) {
  const int n = tot(p);
  for (int f = 0; f < 3; f++) for (int i = 0; i < n; i++) if (!interior(p, i)) y[f * n + i] = (f == 1 ? -1 : 1) * y[f * n + near_in(p, i)] + 0.25 * f;
}
static int gridof(const params_struct *p) { for (int g = 0; g < NGRIDS; g++) if (p == &gd[g].params) return g; bad("params pointer belongs to no grid", 0, 0); return 0; }
static void timecheck(const char *w, int s) { const double want = t0 + Bc[s] * DT; if (!(fabs(cd.time - want) <= 1e-13 * (1 + fabs(want)))) bad(w, cd.time, want); }
void v_rhs(const commondata_struct *c, const params_struct *p, const REAL *xx_or_0, const void *rfm, const void *bc, const REAL *y, REAL *k, const REAL *aux) {
  const int g = gridof(p);
  if (rhs_done[g] == stage) { /* a new sweep begins: the previous one must be complete */
    for (int h = 0; h < NGRIDS; h++) if (rhs_done[h] != stage || post_done[h] < stage) bad("stage begins before the previous one is complete", h, rhs_done[h]);
    if (@PP@ && stage > 0 && pp_done < stage) bad("post-post hook not called", pp_done, stage);
    stage++;
  }
  if (stage > NST) bad("too many right-hand side evaluations", stage, NST);
  if (rhs_done[g] != stage - 1) bad("rhs called twice on a grid", g, stage);
  timecheck("time seen by the right-hand side", stage - 1);
  @RHSCHK@
  const int n = tot(p);
  if (y == k) bad("right-hand side input and output coincide", 0, 0);
  for (int i = 0; i < n; i++) if (NUM_AUXEVOL_GFS > 0 && fabs(aux[i] - (0.1 * (g + 1) + 0.01 * (i % 5))) > 1e-12) bad("auxevol", aux[i], i);
  for (int i = 0; i < 3 * n; i++) if (!isfinite(y[i])) bad("right-hand side reads an unset value", y[i], i);
  /* a real kernel writes interior points only and other points hold junk */
  for (int i = 0; i < 3 * n; i++) k[i] = NAN;
  F(g, p, c->time, y, k);
  rhs_done[g] = stage;
}
void v_post(const commondata_struct *c, const params_struct *p, REAL *y) {
  const int g = gridof(p);
  if (rhs_done[g] != stage) bad("post hook before the right-hand side", g, stage);
  timecheck("time seen by the post hook", stage - 1);
  G(p, y);
  post_done[g] = stage;
}
void v_pp(commondata_struct *c, griddata_struct *g0) {
  if (g0 != gd) bad("griddata pointer", 0, 0);
  for (int h = 0; h < NGRIDS; h++) if (post_done[h] != stage) bad("post-post hook before all grids are updated", h, stage);
  pp_done = stage;
}
/* allocation log */
void *__real_malloc(size_t); void __real_free(void *);
static long live_allocs;
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) { memset(p, 255, n); live_allocs++; } return p; }
void __wrap_free(void *p) { if (p) live_allocs--; __real_free(p); }
int main(void) {
  static const int shapes[3][3] = {{2, 3, 2}, {4, 1, 3}, {1, 2, 5}};
  for (NGRIDS = 1; NGRIDS <= MAXG; NGRIDS++) for (int nn0 = 0; nn0 < 2; nn0++) for (int idt = 0; idt < 2; idt++) {
    memset(&cd, 0, sizeof cd); memset(gd, 0, sizeof gd);
    cd.NUMGRIDS = NGRIDS; cd.dt = idt ? 0.3 : 0.05; cd.nn = nn0 * 7; cd.time = cd.nn * cd.dt; DT = cd.dt;
    const long live0 = live_allocs;
    double *ref[MAXG];
    for (int g = 0; g < NGRIDS; g++) {
      params_struct *p = &gd[g].params;
      p->Nxx_plus_2NGHOSTS0 = shapes[g][0] + 2 * NG; p->Nxx_plus_2NGHOSTS1 = shapes[g][1] + 2 * NG; p->Nxx_plus_2NGHOSTS2 = shapes[g][2] + 2 * NG;
      MoL_malloc_y_n_gfs(&cd, p, &gd[g].gridfuncs);
      MoL_malloc_non_y_n_gfs(&cd, p, &gd[g].gridfuncs);
      @DIAGMALLOC@
      const int n = tot(p);
      if (NUM_EVOL_GFS != 3) bad("evolved gridfunctions", NUM_EVOL_GFS, 3);
      for (int i = 0; i < 3 * n; i++) gd[g].gridfuncs.y_n_gfs[i] = 0.3 * sin(1.7 * i + g) + 0.2;
      for (int i = 0; i < n; i++) if (NUM_AUXEVOL_GFS > 0) gd[g].gridfuncs.auxevol_gfs[i] = 0.1 * (g + 1) + 0.01 * (i % 5);
      G(p, gd[g].gridfuncs.y_n_gfs);
      ref[g] = calloc(3 * n, sizeof(double));
      memcpy(ref[g], gd[g].gridfuncs.y_n_gfs, 3 * n * sizeof(double));
    }
    for (int step = 0; step < @STEPS@; step++) {
      t0 = cd.time; stage = 0; pp_done = 0;
      memset(rhs_done, 0, sizeof rhs_done); memset(post_done, 0, sizeof post_done);
      for (int g = 0; g < NGRIDS; g++) { /* diagnostics between steps overwrite these */
        const int n = tot(&gd[g].params);
        REAL *d[2] = {gd[g].gridfuncs.diagnostic_output_gfs, @DIAG2@};
        for (int q = 0; q < 2; q++) if (d[q]) {
          if (d[q] == gd[g].gridfuncs.y_n_gfs) bad("diagnostic buffer is y_n", 0, 0);
          for (int i = 0; i < 3 * n; i++) d[q][i] = NAN;
        }
        if (!d[0]) bad("no diagnostic buffer", 0, 0);
        if (d[0] == d[1]) bad("diagnostic buffers coincide", 0, 0);
      }
      const int nnb = cd.nn;
      @STEP@
      if (stage != NST) bad("number of right-hand side evaluations", stage, NST);
      for (int g = 0; g < NGRIDS; g++) if (rhs_done[g] != NST || post_done[g] != NST) bad("last stage incomplete", g, post_done[g]);
      if (@PP@ && pp_done != NST) bad("post-post hook not called", pp_done, NST);
      if (cd.nn != nnb + 1) bad("iteration counter", cd.nn, nnb + 1);
      if (!(fabs(cd.time - (nnb + 1) * cd.dt) < 1e-13 * (1 + cd.time))) bad("time after the step", cd.time, (nnb + 1) * cd.dt);
      for (int g = 0; g < NGRIDS; g++) {
        params_struct *p = &gd[g].params; const int n = tot(p);
        double *k[NST], *in = calloc(3 * n, sizeof(double));
        for (int s = 0; s < NST; s++) {
          k[s] = calloc(3 * n, sizeof(double));
          for (int i = 0; i < 3 * n; i++) { in[i] = ref[g][i]; for (int m = 0; m < s; m++) in[i] += DT * Ba[s][m] * k[m][i]; }
          G(p, in);
          F(g, p, t0 + Bc[s] * DT, in, k[s]);
        }
        for (int i = 0; i < 3 * n; i++) for (int s = 0; s < NST; s++) ref[g][i] += DT * Bb[s] * k[s][i];
        G(p, ref[g]);
        for (int i = 0; i < 3 * n; i++) { nev++; if (!(fabs(gd[g].gridfuncs.y_n_gfs[i] - ref[g][i]) <= 1e-12 * (1 + fabs(ref[g][i])))) bad("state after the step", gd[g].gridfuncs.y_n_gfs[i], ref[g][i]); }
        for (int s = 0; s < NST; s++) __real_free(k[s]);
        __real_free(in);
      }
    }
    for (int g = 0; g < NGRIDS; g++) {
      MoL_free_memory_y_n_gfs(&gd[g].gridfuncs); MoL_free_memory_non_y_n_gfs(&gd[g].gridfuncs);
      @DIAGFREE@
      __real_free(ref[g]);
    }
    if (live_allocs != live0) bad("allocations not freed", live_allocs, live0);
  }
  printf("OK %ld\n", nev);
  return 0;
}
"""


def lst(xs):
    return ", ".join(f"{float(sp.N(x, 30)):.17e}" for x in xs)


def step(case, scratch):
    """case = (infrastructure, method, rfm, bcs, aux, post_post)."""
    infra, method, rfm, bcs, aux, pp = case
    d = os.path.join(scratch, f"m{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    bhah.start(2)
    gri.register_gridfunctions(["ya", "yb", "yc"], group="EVOL")
    if aux:
        gri.register_gridfunctions(["qa"], group="AUXEVOL")
    rhs = f"v_rhs(commondata, params, {'0' if rfm else 'xx[0]'}, {'rfmstruct' if rfm else '0'}, {'bcstruct' if bcs else '0'}, RK_INPUT_GFS, RK_OUTPUT_GFS, auxevol_gfs);"
    post = "v_post(commondata, params, RK_OUTPUT_GFS);"
    kw = {"enable_rfm_precompute": rfm, "enable_curviBCs": bcs}
    if infra == "BHaH":
        from nrpy.infrastructures.BHaH.MoLtimestepping import MoL  # pylint: disable=import-outside-toplevel

        MoL.register_CFunctions(MoL_method=method, rhs_string=rhs, post_rhs_string=post, post_post_rhs_string="v_pp(commondata, griddata);" if pp else "", **kw)
    else:
        from nrpy.infrastructures.superB import MoL as SMoL  # pylint: disable=import-outside-toplevel

        if pp:
            SMoL.register_CFunctions(MoL_method=method, rhs_string=rhs, post_rhs_bcs_str=post, post_rhs_string="", **kw)
        else:
            SMoL.register_CFunctions(MoL_method=method, rhs_string=rhs, post_rhs_bcs_str="", post_rhs_string=post, **kw)
    if rfm:
        from nrpy.infrastructures.BHaH import rfm_precompute  # pylint: disable=import-outside-toplevel

        rfm_precompute.register_CFunctions_rfm_precompute(list_of_CoordSystems=["Spherical"])
    bhah.grid_and_bcs("Spherical", bcs=bcs, mol_done=True, enable_rfm_precompute=rfm)
    src = bhah.finish(d, rfm_precompute=rfm)
    src = [s for s in src if os.path.basename(s).startswith("MoL_")]
    T, _ = generate_Butcher_tables()[method]
    c, A, bs = split(T)
    n = len(c)
    chk = ["if (c != &cd) bad(\"commondata pointer\", 0, 0);"]
    if rfm:
        chk.append("if (rfm != &gd[g].rfmstruct) bad(\"rfmstruct pointer\", g, 0);")
    else:
        chk.append("if (xx_or_0 != gd[g].xx[0]) bad(\"xx pointer\", g, 0);")
    if bcs:
        chk.append("if (bc != &gd[g].bcstruct) bad(\"bcstruct pointer\", g, 0);")
    if infra == "BHaH":
        st = "MoL_step_forward_in_time(&cd, gd);"
    else:
        parts = ["MOL_PRE_RK_UPDATE", "MOL_RK_UPDATE"] + (["MOL_POST_RK_UPDATE_APPLY_BCS"] if pp else []) + ["MOL_POST_RK_UPDATE"]
        st = f"for (int s = 0; s < {n}; s++) {{ " + " ".join(f"MoL_step_forward_in_time(&cd, gd, t0, s + RK_SUBSTEP_K1, {q});" for q in parts) + " } cd.time = (cd.nn + 1) * cd.dt; cd.nn++;"
    drv = DRIVER
    if infra == "superB":
        drv = drv.replace('#include "BHaH_function_prototypes.h"', '#include "BHaH_function_prototypes.h"\n#include "vparts.h"')
    for k, v in {
        "NST": n, "C": lst(c), "A": ", ".join("{" + lst(r) + "}" for r in A), "B": lst(bs[0][1]), "PP": int(pp and infra == "BHaH"),
        "RHSCHK": "\n".join(chk), "STEPS": 3, "STEP": st,
        "DIAGMALLOC": "MoL_malloc_diagnostic_gfs(&cd, p, &gd[g].gridfuncs);" if infra == "superB" else "",
        "DIAGFREE": "MoL_free_memory_diagnostic_gfs(&gd[g].gridfuncs);" if infra == "superB" else "",
        "DIAG2": "gd[g].gridfuncs.diagnostic_output_gfs2" if infra == "BHaH" else "0",
    }.items():
        drv = drv.replace(f"@{k}@", str(v))
    # the hooks' prototypes, and superB's part names
    hdr = "void v_rhs(const commondata_struct *c, const params_struct *p, const REAL *xx, const void *rfm, const void *bc, const REAL *y, REAL *k, const REAL *aux);\nvoid v_post(const commondata_struct *c, const params_struct *p, REAL *y);\nvoid v_pp(commondata_struct *c, griddata_struct *g0);\n"
    vf.write(os.path.join(d, "vparts.h"), "".join(f"#define {q} {i}\n" for i, q in enumerate(["MOL_PRE_RK_UPDATE", "MOL_RK_UPDATE", "MOL_POST_RK_UPDATE_APPLY_BCS", "MOL_POST_RK_UPDATE"])))
    with open(os.path.join(d, "BHaH_function_prototypes.h"), "a") as fh:
        fh.write(hdr + ('#include "vparts.h"\n' if infra == "superB" else ""))
    try:
        exe = bhah.compile_project(d, src, drv, flags=("-fopenmp", "-fsanitize=address", "-Wl,--wrap=malloc,--wrap=free"), opt="-O0")
    except vf.CompileError as e:
        return 0, "the generated step does not compile: " + str(e)[-900:]
    p = vf.run([exe], env=OMPENV)
    shutil.rmtree(d)
    if not p.stdout.startswith("OK"):
        return 0, (p.stdout or p.stderr)[:600] or f"died {p.returncode}"
    return int(p.stdout.split()[1]), None


def refused(method, infra):
    """Adaptive tables are refused, not stepped wrongly."""
    bhah.start(2)
    if infra == "BHaH":
        from nrpy.infrastructures.BHaH.MoLtimestepping import MoL  # pylint: disable=import-outside-toplevel
    else:
        from nrpy.infrastructures.superB import MoL  # pylint: disable=import-outside-toplevel

    try:
        MoL.register_CFunctions(MoL_method=method)
    except Exception:  # any refusal will do  pylint: disable=broad-except
        return None
    return "an adaptive table was accepted as a fixed-step method"


def body(chk):
    tabs = generate_Butcher_tables()
    names = list(tabs)
    for nm, (nev, errs) in zip(names, vf.pmap(table, [(n, 0) for n in names])):
        chk.count("order_conditions", nev)
        for e in errs[:3]:
            chk.violation(f"table:{nm}:{e[:60]}", f"Butcher table '{nm}' {e}", {"table": str(tabs[nm])})
        chk.outcome(("table", nm, nev))
    for o in range(1, 20 if chk.thorough else 12):
        nev, errs = vf.forked(adams, o)
        chk.count("order_conditions", nev)
        for e in errs[:2]:
            chk.violation(f"AB{o}", e)
    fixed = [n for n in names if tabs[n][0][-1][0] == ""]
    adaptive = [n for n in names if n not in fixed]
    items = [(n, i) for n in adaptive for i in ("BHaH", "superB")]
    for (nm, infra), e in zip(items, vf.pmap(refused, items)):
        chk.count("evaluations")
        if e:
            chk.violation(f"adaptive:{infra}:{nm}", e)
    cases = []
    for m in fixed:
        for infra in ("BHaH", "superB"):
            for aux in (False, True):
                for rfm, bcs in ([(False, False), (True, True), (False, True), (True, False)] if chk.thorough else [(False, False), (True, True)] if aux else [(False, False)]):
                    for pp in ((False, True) if chk.thorough or not rfm else (True,)):
                        cases.append((infra, m, rfm, bcs, aux, pp))
    for case, res in zip(cases, vf.pmap_raw(step, [(c, chk.scratch) for c in cases])):
        chk.count("programs")
        if res[0] == "exc" and vf.touches_repo(res[1]):
            chk.violation(f"step:{case[0]}:{case[1]}:raises", f"generating the step for {case} raised: {res[1][-600:]}", {"case": case})
            continue
        if res[0] != "ok":
            raise vf.HarnessError(f"{case}: {res}")
        nev, err = res[1]
        chk.count("evaluations", nev)
        chk.outcome((case, nev))
        if err:
            chk.violation(f"step:{case[0]}:{case[1]}" + ("" if "does not compile" not in err else ":uncompilable"), f"{case}: {err}", {"case": case})
    chk.sample({"methods": fixed})


vf.main("C13", "exploration", "one program per (infrastructure, method, pointer options, auxiliary gridfunctions, hooks); one evaluation per state value after a step", body)
