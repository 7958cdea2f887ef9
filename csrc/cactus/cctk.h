/* A stand-in for the Cactus flesh: just enough of it to compile and run generated thorns. */
#ifndef VF_CCTK_H
#define VF_CCTK_H
#include <stddef.h>
#ifdef __cplusplus
#define restrict __restrict__
#define VF_C extern "C"
#else
#define VF_C
#endif
typedef double CCTK_REAL;
typedef int CCTK_INT;
typedef void *CCTK_POINTER;
typedef const void *CCTK_POINTER_TO_CONST;
typedef const char *CCTK_STRING;
typedef struct {
  int cctk_dim, cctk_lsh[3], cctk_gsh[3], cctk_ash[3], cctk_nghostzones[3], cctk_iteration;
  CCTK_REAL cctk_time, cctk_delta_time, cctk_delta_space[3], cctk_origin_space[3];
} cGH;
#define CCTK_ARGUMENTS cGH *restrict cctkGH
#define CCTK_PASS_CTOC cctkGH
#define CCTK_ATTRIBUTE_UNUSED __attribute__((unused))
#define CCTK_ATTRIBUTE_NOINLINE __attribute__((noinline))
#define CCTK_ATTRIBUTE_ALWAYS_INLINE __attribute__((always_inline))
#define CCTK_DEVICE
#define CCTK_HOST
#define CCTK_DELTA_SPACE(d) (cctkGH->cctk_delta_space[d])
#define CCTK_DELTA_TIME (cctkGH->cctk_delta_time)
#define CCTK_ORIGIN_SPACE(d) (cctkGH->cctk_origin_space[d])
#define CCTK_GFINDEX3D(GH, i, j, k) vf_index(GH, i, j, k, __FILE__, __LINE__)
#define CCTK_ERROR(msg) vf_error(msg)
#define CCTK_WARN(level, msg) vf_error(msg)
VF_C int vf_index(const cGH *gh, int i, int j, int k, const char *file, int line);
VF_C void vf_error(const char *msg);
VF_C CCTK_REAL *vf_var(int n);
VF_C const void *CCTK_ParameterGet(const char *name, const char *thorn, int *type);
VF_C int CCTK_GroupIndex(const char *name);
VF_C int CCTK_VarIndex(const char *name);
VF_C int CCTK_IsThornActive(const char *name);
#include "vf_functions.h"
#endif
