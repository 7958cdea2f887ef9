#ifndef VF_LOOP_DEVICE
#define VF_LOOP_DEVICE
#include "cctk.h"
#include <cmath>
#include <algorithm>
#include <cstdlib>
#include <cstdio>
namespace Arith {
struct vect {
  int v[3];
  int operator[](int d) const { return v[d]; }
  int &operator[](int d) { return v[d]; }
};
inline vect operator+(vect a, vect b) { return vect{{a[0] + b[0], a[1] + b[1], a[2] + b[2]}}; }
inline vect operator-(vect a, vect b) { return vect{{a[0] - b[0], a[1] - b[1], a[2] - b[2]}}; }
inline vect operator*(int s, vect a) { return vect{{s * a[0], s * a[1], s * a[2]}}; }
inline vect operator*(vect a, int s) { return s * a; }
inline vect operator-(vect a) { return -1 * a; }
}
namespace Loop {
struct PointDesc {
  Arith::vect I, DI[3];
  int i, j, k;
  CCTK_REAL x, y, z, dx, dy, dz;
};
template <typename T> struct GF3D2 {
  T *ptr;
  const cGH *gh;
  T &operator()(Arith::vect I) const { return ptr[vf_index(gh, I[0], I[1], I[2], "gf", 0)]; }
};
struct GridDescBaseDevice {
  const cGH *gh;
  Arith::vect nghostzones;
  GridDescBaseDevice(const cGH *g) : gh(g), nghostzones{{g->cctk_nghostzones[0], g->cctk_nghostzones[1], g->cctk_nghostzones[2]}} {}
  template <int CI, int CJ, int CK, typename F> void run(Arith::vect ng, F f) const {
    static_assert(CI == 0 && CJ == 0 && CK == 0, "only vertex-centred gridfunctions here");
    for (int k = ng[2]; k < gh->cctk_lsh[2] - ng[2]; k++)
      for (int j = ng[1]; j < gh->cctk_lsh[1] - ng[1]; j++)
        for (int i = ng[0]; i < gh->cctk_lsh[0] - ng[0]; i++) {
          PointDesc p;
          p.I = Arith::vect{{i, j, k}};
          p.i = i; p.j = j; p.k = k;
          for (int d = 0; d < 3; d++) { p.DI[d] = Arith::vect{{0, 0, 0}}; p.DI[d][d] = 1; }
          p.dx = gh->cctk_delta_space[0]; p.dy = gh->cctk_delta_space[1]; p.dz = gh->cctk_delta_space[2];
          p.x = gh->cctk_origin_space[0] + i * p.dx;
          p.y = gh->cctk_origin_space[1] + j * p.dy;
          p.z = gh->cctk_origin_space[2] + k * p.dz;
          f(p);
        }
  }
  template <int CI, int CJ, int CK, typename F> void loop_all(Arith::vect, F f) const { run<CI, CJ, CK>(Arith::vect{{0, 0, 0}}, f); }
  template <int CI, int CJ, int CK, typename F> void loop_int(Arith::vect ng, F f) const { run<CI, CJ, CK>(ng, f); }
  template <int CI, int CJ, int CK, typename F> void loop_all_device(Arith::vect, F f) const { run<CI, CJ, CK>(Arith::vect{{0, 0, 0}}, f); }
  template <int CI, int CJ, int CK, typename F> void loop_int_device(Arith::vect ng, F f) const { run<CI, CJ, CK>(ng, f); }
};
}
using std::max;
using std::min;
#endif
