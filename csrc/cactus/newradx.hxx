#include "loop_device.hxx"
VF_C void vf_newradx(const CCTK_REAL *var, CCTK_REAL *rhs, CCTK_REAL var0, CCTK_REAL v0, CCTK_REAL radpower);
namespace NewRadX {
inline void NewRadX_Apply(const cGH *gh, const Loop::GF3D2<const CCTK_REAL> var, Loop::GF3D2<CCTK_REAL> rhs, CCTK_REAL var0, CCTK_REAL v0, CCTK_REAL radpower) {
  (void)gh;
  vf_newradx(var.ptr, rhs.ptr, var0, v0, radpower);
}
}
