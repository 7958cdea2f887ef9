// Runs a generated superB project under a given schedule. argv: parfile out [policy newest schedule|- reference|-]
#define private public
#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
#include "main.h"
#include "timestepping.h"
#undef private
#include <array>
#include <cmath>
#include <string>
#include <vector>

Main *vf_main = nullptr;
extern std::vector<Timestepping *> vf_chares;
namespace vf {
void init(int, int, int);
bool runall(int, int, std::vector<std::vector<std::array<int, 4>>> &, long);
std::string blocked();
void printtrace(FILE *);
const std::string &failed();
int exitcount();
void dumpfiles();
extern std::vector<std::pair<std::string, std::string>> files;
long unconsumed(int ep);
extern std::function<void(int)> restart;
extern int checkpoints;
extern long restartat;
}
template <class T> static auto packunpack(T *t, int) -> decltype(std::declval<T &>().pup(std::declval<PUP::er &>()), &T::sync_stage, void()) {
  std::vector<char> b; PUP::er sz{nullptr, 0, 0}; t->pup(sz);
  PUP::er pk{&b, 0, 1}; t->pup(pk); if (sz.pos != pk.pos) { vf::fail("sizing a chare gives %zu bytes, packing it %zu", sz.pos, pk.pos); return; }
  memset((void *)&t->commondata, 0x55, (char *)t + sizeof(T) - (char *)&t->commondata); // everything the class declares
  PUP::er up{&b, 0, 2}; t->pup(up); if (up.pos != b.size()) vf::fail("a chare packs %zu bytes and unpacks %zu", b.size(), up.pos);
}
template <class T> static void packunpack(T *, long) { vf::fail("chares cannot be packed"); }
void vf_create(CommondataObject &obj, int a, int b, int c) {
  vf::init(a, b, c);
  for (int z = 0; z < c; z++) for (int y = 0; y < b; y++) for (int x = 0; x < a; x++) {
    vf::creating[0] = x; vf::creating[1] = y; vf::creating[2] = z;
    CommondataObject o; memset((void *)&o, 0x55, sizeof o); vf_pup_copy(obj, o);
    vf_chares.push_back(new Timestepping(std::move(o)));
  }
}
static unsigned long fnv(const void *p, size_t n, unsigned long h = 1469598103934665603UL) { const unsigned char *b = (const unsigned char *)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211UL; } return h; }

int main(int argc, char **argv) {
  const char *out = argv[2]; int policy = argc > 3 ? atoi(argv[3]) : 0, newest = argc > 4 ? atoi(argv[4]) : 0;
  const char *sched = argc > 5 ? argv[5] : "-", *ref = argc > 6 ? argv[6] : "-";
  FILE *f = fopen(out, "w"); if (!f) return 2;
  char *av[] = {argv[0], argv[1]}; CkArgMsg am{2, av};
  vf_main = new Main(&am);
  std::vector<std::vector<std::array<int, 4>>> forced(vf::nch);
  if (strcmp(sched, "-")) { FILE *s = fopen(sched, "r"); int c, a, b, q, e; while (fscanf(s, "%d %d %d %d %d", &c, &a, &b, &q, &e) == 5) forced[c].push_back({a, b, q, e}); fclose(s); }
  if (const char *r = getenv("VF_RESTART")) { vf::restartat = atol(r); vf::restart = [](int c) { packunpack(vf_chares[c], 0); }; }
  bool ok = vf::runall(policy, newest, forced, 400000);
  vf::dumpfiles();
  std::string bl = vf::blocked();
  fprintf(f, "NCH %d %d %d\n", vf::N0, vf::N1, vf::N2);
  if (!ok) fprintf(f, "INFEASIBLE\n");
  if (!vf::failed().empty()) fprintf(f, "FAIL %s\n", vf::failed().c_str());
  if (!bl.empty()) fprintf(f, "BLOCKED %s\n", bl.c_str());
  fprintf(f, "CHECKPOINTS %d\n", vf::checkpoints);
  fprintf(f, "EXITS %d\n", vf::exitcount());
  for (auto &p : vf::files) fprintf(f, "FILE %s %zu %016lx\n", p.first.c_str(), p.second.size(), fnv(p.second.data(), p.second.size()));
  // final state
  const params_struct &g = vf_chares[0]->griddata[0].params;
  int NG[3] = {g.Nxx_plus_2NGHOSTS0, g.Nxx_plus_2NGHOSTS1, g.Nxx_plus_2NGHOSTS2}; size_t npt = (size_t)NG[0] * NG[1] * NG[2];
  int nc[3] = {vf::N0, vf::N1, vf::N2}, Nx[3] = {g.Nxx0, g.Nxx1, g.Nxx2};
  std::vector<REAL> R; REAL *r = nullptr; bool haveref = strcmp(ref, "-") != 0, write = false;
  R.assign(npt * NUM_EVOL_GFS, NAN);
  if (haveref) { FILE *rf = fopen(ref, "rb"); if (rf) { if (fread(R.data(), sizeof(REAL), R.size(), rf) != R.size()) return 2; fclose(rf); r = R.data(); } else write = true; }
  unsigned long h = 1469598103934665603UL; long bad = 0, pts = 0; double worst = 0; std::string first; long nonfinite = 0;
  for (auto *t : vf_chares) {
    const params_struct &p = t->griddata_chare[0].params;
    int M[3] = {p.Nxx_plus_2NGHOSTS0, p.Nxx_plus_2NGHOSTS1, p.Nxx_plus_2NGHOSTS2}, ix[3] = {t->thisIndex.x, t->thisIndex.y, t->thisIndex.z};
    h = fnv(&t->commondata.nn, sizeof t->commondata.nn, h);
    for (int d = 0; d < 3; d++) if (M[d] - 2 * NGHOSTS != Nx[d] / nc[d]) { fprintf(f, "FAIL chare has %d points in direction %d\n", M[d], d); fclose(f); return 0; }
    for (int q = 0; q < NUM_EVOL_GFS; q++) for (int k = 0; k < M[2]; k++) for (int j = 0; j < M[1]; j++) for (int i = 0; i < M[0]; i++) {
      REAL v = t->griddata_chare[0].gridfuncs.y_n_gfs[i + M[0] * (j + M[1] * (k + (size_t)M[2] * q))];
      h = fnv(&v, sizeof v, h); pts++; if (!std::isfinite((double)v)) nonfinite++;
      size_t gi = (i + ix[0] * (Nx[0] / nc[0])) + NG[0] * ((j + ix[1] * (Nx[1] / nc[1])) + (size_t)NG[1] * (k + ix[2] * (Nx[2] / nc[2]))) + npt * q;
      if (write) R[gi] = v;
      else if (r && memcmp(&v, &r[gi], sizeof v)) {
        double e = std::fabs((double)(v - r[gi])) / (1e-300 + std::fabs((double)r[gi])); if (!(e <= worst)) worst = e;
        if (!bad++) { char b[300]; snprintf(b, sizeof b, "gridfunction %d at local point (%d, %d, %d) of chare (%d, %d, %d): %.17g, on one chare %.17g", q, i, j, k, ix[0], ix[1], ix[2], (double)v, (double)r[gi]); first = b; }
      }
    }
  }
  if (write) { FILE *rf = fopen(ref, "wb"); fwrite(R.data(), sizeof(REAL), R.size(), rf); fclose(rf); }
  fprintf(f, "DT %.17g\n", (double)vf_chares[0]->commondata.dt);
  fprintf(f, "NN %d\nSTATE %016lx POINTS %ld NONFINITE %ld\n", vf_chares[0]->commondata.nn, h, pts, nonfinite);
  if (bad) fprintf(f, "DIFF %ld %g %s\n", bad, worst, first.c_str());
  vf::printtrace(f);
  fclose(f);
  return 0;
}
