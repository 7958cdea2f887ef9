// Every point of the chare maps, boundary structs and slices of every division of every grid shape. The slices and
// shapes come from maps_cfg.h. Prints BAD lines and, at the end, OK with counts.
#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
typedef struct { int n; double t[2]; } dir;
struct slice { const char *name; bool exists, extra_i0, ordered; int axis; dir D[3]; };
#include "maps_cfg.h" // static int S0[], S1[], S2[]; slices(params, slice[4]); HASH, MAXCH, RFM(f)
static commondata_struct commondata; static griddata_struct G; static params_struct *P;
static int N[3], M[3], nc[3], n[3], bad; static long points, configs, chares, bcpts, slicepts;
static void fail(const char *f, ...) { va_list a; va_start(a, f); if (bad++ > 3) exit(0); printf("BAD %dx%dx%d points, %dx%dx%d chares: ", N[0], N[1], N[2], nc[0], nc[1], nc[2]); vprintf(f, a); printf("\n"); fflush(stdout); }
#define F(...) do { fail(__VA_ARGS__); return; } while (0)
static int owner1(int d, int i) { int c = (i - NGHOSTS) / n[d]; if (i < NGHOSTS) c = 0; if (c >= nc[d]) c = nc[d] - 1; return c; }
static int id3(const int i[3], const int m[3]) { return i[0] + m[0] * (i[1] + m[1] * i[2]); }
static void un3(int q, const int m[3], int i[3]) { i[0] = q % m[0]; i[1] = (q / m[0]) % m[1]; i[2] = q / (m[0] * m[1]); }
static int owner(const int i[3]) { int c[3]; for (int d = 0; d < 3; d++) c[d] = owner1(d, i[d]); return id3(c, nc); }
static bool admissible(int d, double t, int i) {
  double best = 1e30; for (int j = NGHOSTS; j < NGHOSTS + N[d]; j++) best = fmin(best, fabs(G.xx[d][j] - t));
  const double dx = d == 0 ? P->dxx0 : d == 1 ? P->dxx1 : P->dxx2; return fabs(G.xx[d][i] - t) <= best + 1e-4 * dx;
}
static void freechare(griddata_struct &c) {
  for (int d = 0; d < 3; d++) free(c.xx[d]);
  auto &m = c.charecommstruct; free(m.globalidx3pt_to_chareidx3); free(m.globalidx3pt_to_localidx3pt); free(m.localidx3pt_to_globalidx3pt);
  free(c.bcstruct.inner_bc_array); free(c.bcstruct.inner_bc_array_nonlocal); for (int q = 0; q < NGHOSTS * 3; q++) free(c.bcstruct.pure_outer_bc_array[q]);
  RFM(rfm_precompute_free(&commondata, &c.params, &c.rfmstruct));
}
struct Inner { int src; int8_t par[10]; };
static void division() {
  const int T = nc[0] * nc[1] * nc[2]; std::vector<griddata_struct> C(T); configs++;
  commondata.Nchare0 = nc[0]; commondata.Nchare1 = nc[1]; commondata.Nchare2 = nc[2];
  std::map<int, Inner> inner; std::map<int, std::vector<int>> outer;
  struct Sl { std::map<long, int> at; int tot = -1, num = 0; } sl[4]; slice S[4]; slices(P, S);
  std::vector<bool> dummy;
  for (int q = 0; q < T; q++) {
    chares++; griddata_struct &g = C[q]; memset((void *)&g, 0, sizeof g); int ci[3]; un3(q, nc, ci);
    params_struct_set_to_default(&commondata, &g);
    numerical_grids_chare(&commondata, &G, &g, ci);
    params_struct &p = g.params; const int m[3] = {n[0] + 2 * NGHOSTS, n[1] + 2 * NGHOSTS, n[2] + 2 * NGHOSTS};
    // parameters
    params_struct w = *P; w.Nxx0 = n[0]; w.Nxx1 = n[1]; w.Nxx2 = n[2]; w.Nxx_plus_2NGHOSTS0 = m[0]; w.Nxx_plus_2NGHOSTS1 = m[1]; w.Nxx_plus_2NGHOSTS2 = m[2];
    const double lo[3] = {P->xxmin0, P->xxmin1, P->xxmin2}, hi[3] = {P->xxmax0, P->xxmax1, P->xxmax2}, dx[3] = {P->dxx0, P->dxx1, P->dxx2};
    const double pl[3] = {p.xxmin0, p.xxmin1, p.xxmin2}, ph[3] = {p.xxmax0, p.xxmax1, p.xxmax2};
    for (int d = 0; d < 3; d++) { const double eps = 1e-12 * (fabs(lo[d]) + fabs(hi[d])) + 1e-14, L = lo[d] + dx[d] * n[d] * ci[d], H = lo[d] + dx[d] * n[d] * (ci[d] + 1);
      if (!(fabs(pl[d] - L) <= eps) || !(fabs(ph[d] - H) <= eps)) F("chare (%d, %d, %d): direction %d covers [%.15g, %.15g] instead of [%.15g, %.15g]", ci[0], ci[1], ci[2], d, pl[d], ph[d], L, H); }
    w.xxmin0 = p.xxmin0; w.xxmin1 = p.xxmin1; w.xxmin2 = p.xxmin2; w.xxmax0 = p.xxmax0; w.xxmax1 = p.xxmax1; w.xxmax2 = p.xxmax2;
    if (memcmp(&w, &p, sizeof w)) F("chare (%d, %d, %d): a grid parameter (Nxx, dxx, ...) differs from the expected value", ci[0], ci[1], ci[2]);
    for (int d = 0; d < 3; d++) for (int j = 0; j < m[d]; j++) if (!(fabs(g.xx[d][j] - G.xx[d][j + n[d] * ci[d]]) <= 1e-13 * (fabs(hi[d]) + fabs(lo[d])))) F("chare (%d, %d, %d): coordinate %d of local index %d is %.17g, on the global grid %.17g", ci[0], ci[1], ci[2], d, j, (double)g.xx[d][j], (double)G.xx[d][j + n[d] * ci[d]]);
    // maps
    const charecomm_struct &cm = g.charecommstruct;
    for (int gi = 0; gi < M[0] * M[1] * M[2]; gi++) { int i[3], l[3]; un3(gi, M, i); points++; int o[3]; for (int d = 0; d < 3; d++) { o[d] = owner1(d, i[d]); l[d] = i[d] - o[d] * n[d]; }
      if (cm.globalidx3pt_to_chareidx3[gi] != id3(o, nc)) F("global point (%d, %d, %d) belongs to chare %d instead of %d", i[0], i[1], i[2], cm.globalidx3pt_to_chareidx3[gi], id3(o, nc));
      if (cm.globalidx3pt_to_localidx3pt[gi] != id3(l, m)) F("global point (%d, %d, %d) has local index %d instead of %d", i[0], i[1], i[2], cm.globalidx3pt_to_localidx3pt[gi], id3(l, m)); }
    auto toglobal = [&](int li, int out[3]) { int l[3]; un3(li, m, l); for (int d = 0; d < 3; d++) out[d] = l[d] + ci[d] * n[d]; return id3(out, M); };
    for (int li = 0; li < m[0] * m[1] * m[2]; li++) { int i[3]; if (cm.localidx3pt_to_globalidx3pt[li] != toglobal(li, i)) F("local point %d of chare (%d, %d, %d) is mapped to global point %d instead of (%d, %d, %d)", li, ci[0], ci[1], ci[2], cm.localidx3pt_to_globalidx3pt[li], i[0], i[1], i[2]); }
    // inner boundary points
    const bc_struct &b = g.bcstruct; const nonlocalinnerbc_struct &nl = g.nonlocalinnerbcstruct; const int L = m[0] * m[1] * m[2];
    auto add = [&](const innerpt_bc_struct &x, int src) { int i[3]; if (x.dstpt < 0 || x.dstpt >= L) { fail("inner boundary point %d is not on chare (%d, %d, %d)", x.dstpt, ci[0], ci[1], ci[2]); return; } const int gd = toglobal(x.dstpt, i); if (owner(i) != q) fail("chare %d handles the inner boundary point (%d, %d, %d) of chare %d", q, i[0], i[1], i[2], owner(i)); if (inner.count(gd)) fail("inner boundary point (%d, %d, %d) is handled twice", i[0], i[1], i[2]); Inner e; e.src = src; memcpy(e.par, x.parity, 10); inner[gd] = e; bcpts++; };
    for (int k = 0; k < b.bc_info.num_inner_boundary_points; k++) { int i[3]; const int s = b.inner_bc_array[k].srcpt; if (s < 0 || s >= L) F("source %d of an inner boundary point is not on the chare", s); add(b.inner_bc_array[k], toglobal(s, i)); }
    int tot = 0; std::set<int> lin; std::vector<int> expect(T, -1);
    for (int a = 0; a < nl.tot_num_src_chares; a++) { const int sc = nl.idx3_of_src_chares[a]; if (sc < 0 || sc >= T || sc == q) F("chare %d expects points from chare %d", q, sc); if (expect[sc] >= 0) F("chare %d lists source chare %d twice", q, sc); expect[sc] = a;
      for (int k = 0; k < nl.num_srcpts_each_chare[a]; k++) { tot++; const int id = nl.map_srcchare_and_srcpt_id_to_linear_id[a][k], gs = nl.globalidx3_srcpts[a][k]; if (id < 0 || id >= b.bc_info.num_inner_boundary_points_nonlocal || !lin.insert(id).second) F("chare %d: source point %d of chare %d has number %d (of %d), out of range or used twice", q, k, sc, id, b.bc_info.num_inner_boundary_points_nonlocal);
        int i[3]; un3(gs, M, i); if (gs < 0 || gs >= M[0] * M[1] * M[2] || owner(i) != sc) F("chare %d expects global point %d from chare %d, which does not own it", q, gs, sc); add(b.inner_bc_array_nonlocal[id], gs); } }
    if (tot != b.bc_info.num_inner_boundary_points_nonlocal) F("chare %d has %d inner boundary points with a source elsewhere, and expects %d", q, b.bc_info.num_inner_boundary_points_nonlocal, tot);
    for (int c = 0; c < T; c++) if (nl.idx3chare_to_src_chare_id[c] != expect[c]) F("chare %d: chare %d has source number %d instead of %d", q, c, nl.idx3chare_to_src_chare_id[c], expect[c]);
    if (bad) return;
    // outer boundary points
    for (int gz = 0; gz < NGHOSTS; gz++) for (int dn = 0; dn < 3; dn++) for (int k = 0; k < b.bc_info.num_pure_outer_boundary_points[gz][dn]; k++) { const outerpt_bc_struct &x = b.pure_outer_bc_array[dn + 3 * gz][k]; int i[3] = {x.i0 + ci[0] * n[0], x.i1 + ci[1] * n[1], x.i2 + ci[2] * n[2]}; bcpts++;
      for (int d = 0; d < 3; d++) if (i[d] < 0 || i[d] >= M[d]) F("outer boundary point off the grid"); if (owner(i) != q) F("chare %d handles the outer boundary point (%d, %d, %d) of chare %d", q, i[0], i[1], i[2], owner(i));
      auto &o = outer[id3(i, M)]; if (!o.empty()) F("outer boundary point (%d, %d, %d) is handled twice", i[0], i[1], i[2]); o = {gz, dn, x.FACEX0, x.FACEX1, x.FACEX2}; }
    // slices
    const diagnostic_struct &s = g.diagnosticstruct; if (s.num_output_quantities != NQ) F("%d output quantities instead of %d", s.num_output_quantities, NQ);
    auto slice1 = [&](int w, int totn, int num, const int *idx, const int *a, const int *bb, const int *c, const int *off) { const int width = 23 * (s.num_output_quantities + (w < 2 ? 1 : 2));
      if (sl[w].tot >= 0 && sl[w].tot != totn) { fail("%s: chares disagree about the number of points", S[w].name); return; } sl[w].tot = totn; sl[w].num += num;
      for (int k = 0; k < num; k++) { slicepts++; int l[3] = {a[k], bb[k], c[k]}, i[3]; if (idx[k] != id3(l, m)) { fail("%s: local index of point (%d, %d, %d) is %d", S[w].name, l[0], l[1], l[2], idx[k]); return; } for (int d = 0; d < 3; d++) { i[d] = l[d] + ci[d] * n[d]; if (l[d] < NGHOSTS || l[d] >= NGHOSTS + n[d]) { fail("%s: chare %d writes (%d, %d, %d), which is not in its interior", S[w].name, q, l[0], l[1], l[2]); return; } }
        if (off[k] % width || off[k] < 0 || off[k] / width >= totn || sl[w].at.count(off[k])) { fail("%s: point (%d, %d, %d) is written at byte %d, which is outside the file, used twice, or not the start of a line", S[w].name, i[0], i[1], i[2], off[k]); return; } sl[w].at[off[k]] = id3(i, M); } };
    slice1(0, s.tot_num_diagnostic_1d_y_pts, s.num_diagnostic_1d_y_pts, s.localidx3_diagnostic_1d_y_pt, s.locali0_diagnostic_1d_y_pt, s.locali1_diagnostic_1d_y_pt, s.locali2_diagnostic_1d_y_pt, s.offset_diagnostic_1d_y_pt);
    slice1(1, s.tot_num_diagnostic_1d_z_pts, s.num_diagnostic_1d_z_pts, s.localidx3_diagnostic_1d_z_pt, s.locali0_diagnostic_1d_z_pt, s.locali1_diagnostic_1d_z_pt, s.locali2_diagnostic_1d_z_pt, s.offset_diagnostic_1d_z_pt);
    slice1(2, s.tot_num_diagnostic_2d_xy_pts, s.num_diagnostic_2d_xy_pts, s.localidx3_diagnostic_2d_xy_pt, s.locali0_diagnostic_2d_xy_pt, s.locali1_diagnostic_2d_xy_pt, s.locali2_diagnostic_2d_xy_pt, s.offset_diagnostic_2d_xy_pt);
    slice1(3, s.tot_num_diagnostic_2d_yz_pts, s.num_diagnostic_2d_yz_pts, s.localidx3_diagnostic_2d_yz_pt, s.locali0_diagnostic_2d_yz_pt, s.locali1_diagnostic_2d_yz_pt, s.locali2_diagnostic_2d_yz_pt, s.offset_diagnostic_2d_yz_pt);
    for (int *x : {s.localidx3_diagnostic_1d_y_pt, s.locali0_diagnostic_1d_y_pt, s.locali1_diagnostic_1d_y_pt, s.locali2_diagnostic_1d_y_pt, s.offset_diagnostic_1d_y_pt, s.localidx3_diagnostic_1d_z_pt, s.locali0_diagnostic_1d_z_pt, s.locali1_diagnostic_1d_z_pt, s.locali2_diagnostic_1d_z_pt, s.offset_diagnostic_1d_z_pt, s.localidx3_diagnostic_2d_xy_pt, s.locali0_diagnostic_2d_xy_pt, s.locali1_diagnostic_2d_xy_pt, s.locali2_diagnostic_2d_xy_pt, s.offset_diagnostic_2d_xy_pt, s.localidx3_diagnostic_2d_yz_pt, s.locali0_diagnostic_2d_yz_pt, s.locali1_diagnostic_2d_yz_pt, s.locali2_diagnostic_2d_yz_pt, s.offset_diagnostic_2d_yz_pt}) free(x);
    if (bad) return;
  }
  // against the global grid
  const bc_struct &B = G.bcstruct;
  for (int k = 0; k < B.bc_info.num_inner_boundary_points; k++) { const innerpt_bc_struct &x = B.inner_bc_array[k]; int i[3]; un3(x.dstpt, M, i); auto f = inner.find(x.dstpt); if (f == inner.end()) F("no chare handles the inner boundary point (%d, %d, %d)", i[0], i[1], i[2]); if (f->second.src != x.srcpt) F("inner boundary point (%d, %d, %d) is filled from global point %d instead of %d", i[0], i[1], i[2], f->second.src, x.srcpt); if (memcmp(f->second.par, x.parity, 10)) F("inner boundary point (%d, %d, %d) has other parities than on the global grid", i[0], i[1], i[2]); }
  if ((int)inner.size() != B.bc_info.num_inner_boundary_points) F("%zu inner boundary points are handled, the global grid has %d", inner.size(), B.bc_info.num_inner_boundary_points);
  size_t no = 0; for (int gz = 0; gz < NGHOSTS; gz++) for (int dn = 0; dn < 3; dn++) for (int k = 0; k < B.bc_info.num_pure_outer_boundary_points[gz][dn]; k++) { no++; const outerpt_bc_struct &x = B.pure_outer_bc_array[dn + 3 * gz][k]; int i[3] = {x.i0, x.i1, x.i2}; auto f = outer.find(id3(i, M)); if (f == outer.end()) F("no chare handles the outer boundary point (%d, %d, %d)", i[0], i[1], i[2]); if (f->second != std::vector<int>{gz, dn, x.FACEX0, x.FACEX1, x.FACEX2}) F("outer boundary point (%d, %d, %d) has another layer, direction or face than on the global grid", i[0], i[1], i[2]); }
  if (outer.size() != no) F("%zu outer boundary points are handled, the global grid has %zu", outer.size(), no);
  // lists of points to send
  for (int q = 0; q < T; q++) { const nonlocalinnerbc_struct &nl = C[q].nonlocalinnerbcstruct; std::vector<int> to(T, -1);
    for (int a = 0; a < nl.tot_num_dst_chares; a++) { const int dc = nl.idx3_of_dst_chares[a]; if (dc < 0 || dc >= T || dc == q || to[dc] >= 0) F("chare %d lists destination %d", q, dc); to[dc] = a; }
    for (int c = 0; c < T; c++) { if (nl.idx3chare_to_dst_chare_id[c] != to[c]) F("chare %d: chare %d has destination number %d instead of %d", q, c, nl.idx3chare_to_dst_chare_id[c], to[c]); const nonlocalinnerbc_struct &o = C[c].nonlocalinnerbcstruct; const int e = o.idx3chare_to_src_chare_id[q]; const int want = e < 0 ? 0 : o.num_srcpts_each_chare[e], have = to[c] < 0 ? 0 : nl.num_srcpts_tosend_each_chare[to[c]]; if (want != have) F("chare %d sends %d points to chare %d, which expects %d", q, have, c, want); } }
  // slices
  for (int w = 0; w < 4; w++) {
    if (sl[w].num != sl[w].tot) F("%s: %d of %d points are written", S[w].name, sl[w].num, sl[w].tot);
    if (!S[w].exists) { std::set<int> once; for (auto &e : sl[w].at) if (!once.insert(e.second).second) F("%s: a point is written twice", S[w].name); continue; } // no points on it: which ones are nearest is not specified
    std::set<int> used[3]; int pts = 0; double last = -1e300; std::set<int> seen;
    for (auto &e : sl[w].at) { int i[3]; un3(e.second, M, i); if (!seen.insert(e.second).second) F("%s: point (%d, %d, %d) is written twice", S[w].name, i[0], i[1], i[2]); bool on = true; for (int d = 0; d < 3; d++) if (S[w].D[d].n > 0) { bool a = false; for (int t = 0; t < S[w].D[d].n; t++) a |= admissible(d, S[w].D[d].t[t], i[d]); on &= a; }
      if (S[w].ordered) { REAL X[3]; xx_to_Cart(&commondata, P, G.xx, i[0], i[1], i[2], X); if (X[S[w].axis] < last) F("%s: the lines are not in order", S[w].name); last = X[S[w].axis]; }
      if (on) { pts++; for (int d = 0; d < 3; d++) used[d].insert(i[d]); } else if (!(S[w].extra_i0 && i[0] == NGHOSTS)) F("%s: point (%d, %d, %d) is not next to the slice", S[w].name, i[0], i[1], i[2]); }
    int prod = 1; for (int d = 0; d < 3; d++) { int need = S[w].D[d].n < 0 ? N[d] : S[w].D[d].n == 0 ? 1 : S[w].D[d].n; if (S[w].D[d].n > 0) for (int t = 0; t < S[w].D[d].n; t++) { bool got = false; for (int j : used[d]) got |= admissible(d, S[w].D[d].t[t], j); if (!got) F("%s: nothing is written next to %g in direction %d", S[w].name, S[w].D[d].t[t], d); } if ((int)used[d].size() != need) F("%s: %zu different indices of direction %d are written instead of %d", S[w].name, used[d].size(), d, need); prod *= need; }
    if (pts != prod) F("%s: %d points instead of %d", S[w].name, pts, prod); }
  for (int q = 0; q < T; q++) { freechare(C[q]); auto &nl = C[q].nonlocalinnerbcstruct; for (int a = 0; a < nl.tot_num_src_chares; a++) { free(nl.map_srcchare_and_srcpt_id_to_linear_id[a]); free(nl.globalidx3_srcpts[a]); } for (int a = 0; a < nl.tot_num_dst_chares; a++) free(nl.globalidx3_srcpts_tosend[a]); free(nl.map_srcchare_and_srcpt_id_to_linear_id); free(nl.globalidx3_srcpts); free(nl.globalidx3_srcpts_tosend); free(nl.idx3_of_src_chares); free(nl.num_srcpts_each_chare); free(nl.idx3chare_to_src_chare_id); free(nl.idx3_of_dst_chares); free(nl.idx3chare_to_dst_chare_id); free(nl.num_srcpts_tosend_each_chare); }
}
int main() {
  for (int a : S0) for (int b : S1) for (int c : S2) {
    memset((void *)&commondata, 0, sizeof commondata); memset((void *)&G, 0, sizeof G); commondata_struct_set_to_default(&commondata); commondata.NUMGRIDS = 1; commondata.convergence_factor = 1; params_struct_set_to_default(&commondata, &G); P = &G.params;
    P->CoordSystem_hash = HASH; P->grid_physical_size = 7.0; const int Nx[3] = {a, b, c};
    numerical_grid_params_Nxx_dxx_xx(&commondata, P, G.xx, Nx, true);
    N[0] = P->Nxx0; N[1] = P->Nxx1; N[2] = P->Nxx2; for (int d = 0; d < 3; d++) M[d] = N[d] + 2 * NGHOSTS;
    bcstruct_set_up(&commondata, P, G.xx, &G.bcstruct);
    for (nc[0] = 1; nc[0] <= N[0]; nc[0]++) for (nc[1] = 1; nc[1] <= N[1]; nc[1]++) for (nc[2] = 1; nc[2] <= N[2]; nc[2]++) {
      bool ok = nc[0] * nc[1] * nc[2] <= MAXCH; for (int d = 0; d < 3; d++) { if (N[d] % nc[d]) ok = false; else { n[d] = N[d] / nc[d]; if (nc[d] > 1 && n[d] < NGHOSTS) ok = false; } }
      if (ok) division(); if (bad) return 0;
    }
    free(G.bcstruct.inner_bc_array); for (int q = 0; q < NGHOSTS * 3; q++) free(G.bcstruct.pure_outer_bc_array[q]); for (int d = 0; d < 3; d++) free(G.xx[d]);
  }
  printf("OK %ld %ld %ld %ld %ld\n", configs, chares, points, bcpts, slicepts);
}
