#include <ctype.h>
#include <math.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include "cctk.h"
/* vf_tables.h: VF_NVAR, vf_names[] ("Thorn::var"), groups, parameters, functions */
#include "vf_tables.h"

static cGH gh;
static CCTK_REAL *vars[VF_NVAR + 1];
static size_t npts;

void vf_error(const char *msg) { printf("ERROR %s\n", msg); }
int vf_index(const cGH *g, int i, int j, int k, const char *file, int line) {
  if (i < 0 || j < 0 || k < 0 || i >= g->cctk_lsh[0] || j >= g->cctk_lsh[1] || k >= g->cctk_lsh[2]) {
    printf("OUTSIDE %d %d %d\n", i, j, k);
    fflush(stdout);
    exit(3);
  }
  return i + g->cctk_lsh[0] * (j + g->cctk_lsh[1] * k);
}
CCTK_REAL *vf_var(int n) { return vars[n]; }
int CCTK_VarIndex(const char *name) {
  for (int n = 0; n < VF_NVAR; n++)
    if (!strcasecmp(name, vf_names[n])) return n;
  return -1;
}
int CCTK_GroupIndex(const char *name) {
  for (int n = 0; vf_groups[n]; n++)
    if (!strcasecmp(name, vf_groups[n])) return n;
  return -1;
}
int CCTK_IsThornActive(const char *name) { (void)name; return 1; }
const void *CCTK_ParameterGet(const char *name, const char *thorn, int *type) {
  for (int n = 0; vf_params[n].name; n++)
    if (!strcasecmp(name, vf_params[n].name) && !strcasecmp(thorn, vf_params[n].thorn)) {
      if (type) *type = vf_params[n].type;
      return vf_params[n].ptr;
    }
  printf("NOPARAM %s::%s\n", thorn, name);
  fflush(stdout);
  exit(3);
}
static const char *varname(const void *p) {
  for (int n = 0; n < VF_NVAR; n++)
    if (vars[n] == p) return vf_names[n];
  return "?";
}
/* functions that thorns provide to each other */
CCTK_INT MoLRegisterEvolvedGroup(CCTK_INT a, CCTK_INT b) {
  int n = 0; while (vf_groups[n]) n++;
  printf("MOL %s %s\n", a >= 0 && a < n ? vf_groups[a] : "?", b >= 0 && b < n ? vf_groups[b] : "?");
  return 0;
}
static int select_bc(const char *who, CCTK_INT faces, CCTK_INT width, const char *var, const char *bc) {
  printf("%s %s %d %d %s\n", who, var, faces, width, bc);
  return CCTK_VarIndex(var) < 0 && CCTK_GroupIndex(var) < 0 ? -1 : 0;
}
CCTK_INT Driver_SelectVarForBC(CCTK_POINTER_TO_CONST g, CCTK_INT faces, CCTK_INT width, CCTK_INT table, CCTK_STRING var, CCTK_STRING bc) { (void)table; return g == &gh ? select_bc("DRIVERBC", faces, width, var, bc) : -2; }
CCTK_INT Boundary_SelectVarForBC(CCTK_POINTER_TO_CONST g, CCTK_INT faces, CCTK_INT width, CCTK_INT table, CCTK_STRING var, CCTK_STRING bc) { (void)table; return g == &gh ? select_bc("BOUNDARYBC", faces, width, var, bc) : -2; }
CCTK_INT ExtrapolateGammas(CCTK_POINTER_TO_CONST g, CCTK_REAL *var) { (void)g; printf("EXTRAPOLATE %s\n", varname(var)); return 0; }
static int ghost(size_t p);
static void newrad(const CCTK_REAL *var, CCTK_REAL *rhs, CCTK_REAL var0, CCTK_REAL v0, double radpower) {
  printf("NEWRAD %s %s %.17g %.17g %g\n", varname(var), varname(rhs), var0, v0, radpower);
  for (size_t p = 0; p < npts; p++)
    if (ghost(p)) rhs[p] = -v0 * (var[p] - var0);
}
CCTK_INT NewRad_Apply(CCTK_POINTER_TO_CONST g, const CCTK_REAL *var, CCTK_REAL *rhs, CCTK_REAL var0, CCTK_REAL v0, CCTK_INT radpower) { (void)g; newrad(var, rhs, var0, v0, radpower); return 0; }
void vf_newradx(const CCTK_REAL *var, CCTK_REAL *rhs, CCTK_REAL var0, CCTK_REAL v0, CCTK_REAL radpower) { newrad(var, rhs, var0, v0, radpower); }
CCTK_INT SymmetryTableHandleForGrid(CCTK_POINTER_TO_CONST g) { (void)g; return 0; }
int SetCartSymVN(const cGH *g, const int *sym, const char *name) { (void)g; printf("SYM %s %d %d %d%s\n", name, sym[0], sym[1], sym[2], CCTK_VarIndex(name) < 0 ? " UNKNOWN" : ""); return 0; }
int Einstein_RegisterSlicing(const char *name) { printf("SLICING %s\n", name); return 0; }

static int ghost(size_t p) {
  int i[3] = {(int)(p % gh.cctk_lsh[0]), (int)(p / gh.cctk_lsh[0] % gh.cctk_lsh[1]), (int)(p / gh.cctk_lsh[0] / gh.cctk_lsh[1])};
  for (int d = 0; d < 3; d++)
    if (i[d] < gh.cctk_nghostzones[d] || i[d] >= gh.cctk_lsh[d] - gh.cctk_nghostzones[d]) return 1;
  return 0;
}
static double noise(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ull + b * 0xD1B54A32D192ED03ull + 77;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31;
  return (double)(z >> 11) / 9007199254740992.0;
}
int main(void) {
  char cmd[32], name[256], what[64];
  gh.cctk_dim = 3;
  while (scanf("%31s", cmd) == 1) {
    if (!strcmp(cmd, "grid")) {
      npts = 1;
      for (int d = 0; d < 3; d++) {
        if (scanf("%d %d %lf %lf", &gh.cctk_lsh[d], &gh.cctk_nghostzones[d], &gh.cctk_origin_space[d], &gh.cctk_delta_space[d]) != 4) return 4;
        gh.cctk_gsh[d] = gh.cctk_ash[d] = gh.cctk_lsh[d];
        npts *= gh.cctk_lsh[d];
      }
      for (int n = 0; n < VF_NVAR; n++) {
        free(vars[n]);
        vars[n] = malloc(npts * sizeof(CCTK_REAL));
        for (size_t p = 0; p < npts; p++) vars[n][p] = 0;
      }
    } else if (!strcmp(cmd, "time")) {
      if (scanf("%lf", &gh.cctk_time) != 1) return 4;
    } else if (!strcmp(cmd, "fill")) { /* fill VAR REGION base amplitude seed */
      double base, amp; unsigned long seed;
      if (scanf("%255s %63s %lf %lf %lu", name, what, &base, &amp, &seed) != 5) return 4;
      int n = CCTK_VarIndex(name);
      if (n < 0) { printf("NOVAR %s\n", name); return 3; }
      for (size_t p = 0; p < npts; p++)
        if (!strcmp(what, "all") || (!strcmp(what, "ghost")) == ghost(p)) vars[n][p] = base + amp * noise(seed * 1000 + n, p);
    } else if (!strcmp(cmd, "poly")) { /* poly VAR nterms {coef ex ey ez} */
      int nt;
      if (scanf("%255s %d", name, &nt) != 2) return 4;
      int n = CCTK_VarIndex(name);
      if (n < 0) { printf("NOVAR %s\n", name); return 3; }
      for (size_t p = 0; p < npts; p++) vars[n][p] = 0;
      for (int t = 0; t < nt; t++) {
        double c; int e[3];
        if (scanf("%lf %d %d %d", &c, &e[0], &e[1], &e[2]) != 4) return 4;
        for (size_t p = 0; p < npts; p++) {
          int i[3] = {(int)(p % gh.cctk_lsh[0]), (int)(p / gh.cctk_lsh[0] % gh.cctk_lsh[1]), (int)(p / gh.cctk_lsh[0] / gh.cctk_lsh[1])};
          double v = c;
          for (int d = 0; d < 3; d++)
            for (int q = 0; q < e[d]; q++) v *= gh.cctk_origin_space[d] + i[d] * gh.cctk_delta_space[d];
          vars[n][p] += v;
        }
      }
    } else if (!strcmp(cmd, "coords")) { /* coords x y z variables */
      for (int d = 0; d < 3; d++) {
        if (scanf("%255s", name) != 1) return 4;
        int n = CCTK_VarIndex(name);
        for (size_t p = 0; n >= 0 && p < npts; p++) {
          int i[3] = {(int)(p % gh.cctk_lsh[0]), (int)(p / gh.cctk_lsh[0] % gh.cctk_lsh[1]), (int)(p / gh.cctk_lsh[0] / gh.cctk_lsh[1])};
          vars[n][p] = gh.cctk_origin_space[d] + i[d] * gh.cctk_delta_space[d];
        }
      }
    } else if (!strcmp(cmd, "par")) { /* par Thorn name value */
      double v;
      if (scanf("%63s %255s %lf", what, name, &v) != 3) return 4;
      int found = 0;
      for (int n = 0; vf_params[n].name; n++)
        if (!strcasecmp(name, vf_params[n].name) && !strcasecmp(what, vf_params[n].thorn)) {
          found = 1;
          if (vf_params[n].type == 1) *(CCTK_REAL *)vf_params[n].ptr = v; else *(CCTK_INT *)vf_params[n].ptr = (int)v;
        }
      if (!found) printf("NOPAR %s::%s\n", what, name);
    } else if (!strcmp(cmd, "call")) {
      if (scanf("%255s", name) != 1) return 4;
      int found = 0;
      for (int n = 0; vf_calls[n].name; n++)
        if (!strcmp(name, vf_calls[n].name)) { found = 1; ((void (*)(cGH *))vf_calls[n].fn)(&gh); }
      if (!found) { printf("NOFUNC %s\n", name); return 3; }
    } else if (!strcmp(cmd, "save")) {
      if (scanf("%255s", name) != 1) return 4;
      FILE *f = fopen(name, "wb");
      for (int n = 0; n < VF_NVAR; n++) fwrite(vars[n], sizeof(CCTK_REAL), npts, f);
      fclose(f);
    } else if (!strcmp(cmd, "say")) {
      if (scanf("%255s", name) != 1) return 4;
      printf("SAY %s\n", name);
    } else return 5;
  }
  return 0;
}
