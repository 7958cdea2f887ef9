// A stand-in for the parts of the Charm++ runtime used by generated superB projects: one address space, one
// coroutine per running entry method, and message delivery in an order chosen by the checker. Charm++ promises
// nothing about the order in which messages arrive, not even between one pair of chares.
#ifndef VFCHARM_H
#define VFCHARM_H
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <type_traits>
#include <vector>
#include <time.h>

namespace vf {
struct Msg {
  int ep = -1, dest = -1, src = -1, srcev = 0, srcseq = 0;
  bool consumed = false;
  long lost = 1L << 60; // lost in a restart before this event of the destination
  long arrival = 0, ref = 0;
  std::vector<int> vc;
  virtual ~Msg() {}
};
struct PtrMsg : Msg { // a message object
  void *obj = nullptr;
};
struct EpInfo {
  const char *name;
  bool spawn; // has a body: runs when it arrives
  void (*run)(int chare, Msg *);
};
extern EpInfo *eps;
extern int neps, N0, N1, N2, nch;
extern int creating[3];
inline int lin(int x, int y, int z) { return x + N0 * (y + N1 * z); }
void post(int dest, Msg *m); // dest -1: Main
Msg *wait(int ep, bool useref, long ref);
void fail(const char *fmt, ...);
std::vector<int> nowvc();
void stamp(Msg *m);
void deliver_from(const std::vector<int> &vc, int src, int srcev, int srcseq, int dest, Msg *m);
} // namespace vf

struct CkMigrateMessage {};
struct CkArgMsg { int argc; char **argv; };
struct CkArrayIndex3D { int x, y, z; CkArrayIndex3D(int a, int b, int c) : x(a), y(b), z(c) {} };
#define CkPrintf(...) do {} while (0)
void CkExit();
inline double CkWallTimer() { return 0; }
inline int CkMyPe() { return 0; }
#define CkAssert(c) do { if (!(c)) vf::fail("CkAssert(%s)", #c); } while (0)

struct CkReductionMsg {
  std::vector<double> d;
  int getSize() const { return (int)(d.size() * sizeof(double)); }
  void *getData() { return d.data(); }
};
namespace CkReduction { enum R { sum_double, max_double, min_double, nop }; }

#define CkReductionTarget(cls, entry) CkIndex_##cls::entry()
struct vfTarget { int lo = 0, hi = -1; }; // range of chares (linear indices), or Main if hi == -2
struct CkCallback {
  int ep = -1;
  std::vector<int> dests;
  CkCallback() {}
  template <class P> CkCallback(int e, const P &p) : ep(e), dests(p.vf_dests()) {}
};
void vf_fire(const CkCallback &cb, const std::vector<int> &vc, int src, int srcev, int &srcseq, std::function<void *()> make);

void CkStartCheckpoint(const char *dir, CkCallback cb);

namespace Ck { namespace IO {
struct Options { size_t peStripe = 0, writeStripe = 0; int activePEs = -1; int basePE = -1; int skipPEs = -1; };
struct File { int id = -1; };
struct Session { int id = -1; };
struct FileReadyMsg { File file; };
struct SessionReadyMsg { Session session; };
void open(std::string name, CkCallback opened, Options opts);
void startSession(File file, size_t bytes, size_t offset, CkCallback ready, CkCallback complete);
void write(Session session, const char *data, size_t bytes, size_t offset);
void close(File file, CkCallback closed);
} }

namespace PUP {
struct er {
  std::vector<char> *buf; size_t pos; int mode; // 0 sizing, 1 packing, 2 unpacking
  bool isSizing() const { return mode == 0; }
  bool isPacking() const { return mode == 1; }
  bool isUnpacking() const { return mode == 2; }
  void raw(void *p, size_t n) {
    if (mode == 1) buf->insert(buf->end(), (char *)p, (char *)p + n);
    else if (mode == 2) { if (pos + n > buf->size()) vf::fail("unpacking reads beyond the packed data"); else memcpy(p, buf->data() + pos, n); }
    pos += n;
  }
  void operator()(void *p, size_t n) { raw(p, n); }
};
}
template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type> inline void operator|(PUP::er &p, T &t) { p.raw(&t, sizeof(T)); }
template <class T, class = decltype(std::declval<T &>().pup(std::declval<PUP::er &>())), class = int> inline void operator|(PUP::er &p, T &t) { t.pup(p); }
template <class T> inline void PUParray(PUP::er &p, T *t, size_t n) { for (size_t i = 0; i < n; i++) p | t[i]; }
inline void operator|(PUP::er &p, Ck::IO::File &f) { p.raw(&f.id, sizeof f.id); }
template <class T> inline void operator|(PUP::er &p, std::vector<T> &v) { size_t n = v.size(); p | n; v.resize(n); for (size_t i = 0; i < n; i++) p | v[i]; }
inline void operator|(PUP::er &p, std::string &s) { size_t n = s.size(); p | n; s.resize(n); if (n) p.raw(&s[0], n); }
template <class T> inline void vf_pup_copy(T &from, T &to) {
  std::vector<char> b; PUP::er pk{&b, 0, 1}; pk | from; PUP::er up{&b, 0, 2}; up | to;
  if (up.pos != b.size()) vf::fail("packing and unpacking disagree about the size");
}
struct vfIndex { int x, y, z; };
void vf_contribute(int chare, const std::vector<double> &d, CkReduction::R op, const CkCallback &cb);
#endif
