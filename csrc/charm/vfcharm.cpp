#include "vfcharm.h"
#include <algorithm>
#include <cstdarg>
#include <map>
#include <memory>
#include <set>
#include <ucontext.h>

namespace vf {
int N0 = 1, N1 = 1, N2 = 1, nch = 0, creating[3];
struct Co { ucontext_t ctx, back; std::vector<char> stack; int chare; bool waiting = false, useref = false, done = false; int ep = -1; long ref = 0; Msg *got = nullptr; std::function<void()> fn; };
struct Ev { int chare, n; Msg *m; std::vector<int> pre; std::vector<std::array<long, 3>> waits; };
static std::vector<std::vector<std::unique_ptr<Co>>> cos;
static std::vector<std::vector<Msg *>> inbox; // every message ever addressed to the chare
static std::vector<std::vector<int>> clk;
static std::vector<int> nev, seq;
static std::vector<Ev> trace;
static Co *cur = nullptr;
static int curch = -1; // -1: Main
static std::vector<int> mainvc; static int mainseq = 0;
static long arrivals = 0; static int exits = 0;
static std::string failure;
void fail(const char *fmt, ...) { if (!failure.empty()) return; char b[800]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); failure = b; }
const std::string &failed() { return failure; }
int exitcount() { return exits; }
void init(int a, int b, int c) {
  N0 = a; N1 = b; N2 = c; nch = a * b * c;
  cos.resize(nch); inbox.resize(nch); clk.assign(nch, std::vector<int>(nch, 0)); nev.assign(nch, 0); seq.assign(nch, 0); mainvc.assign(nch, 0);
}
std::vector<int> nowvc() { return curch < 0 ? mainvc : clk[curch]; }
void stamp(Msg *m) {
  m->src = curch; m->srcev = curch < 0 ? 0 : nev[curch]; m->srcseq = curch < 0 ? mainseq++ : seq[curch]++; m->vc = nowvc();
}
void put(int dest, Msg *m) {
  m->dest = dest; m->arrival = arrivals++;
  if (dest < 0) { eps[m->ep].run(-1, m); return; } // Main: done()
  if (dest >= nch) { fail("message %s to a chare that does not exist", eps[m->ep].name); return; }
  inbox[dest].push_back(m);
}
void post(int dest, Msg *m) { stamp(m); put(dest, m); }
void deliver_from(const std::vector<int> &vc, int src, int srcev, int srcseq, int dest, Msg *m) { m->src = src; m->srcev = srcev; m->srcseq = srcseq; m->vc = vc; put(dest, m); }
Msg *wait(int ep, bool useref, long ref) {
  Co *me = cur; me->waiting = true; me->ep = ep; me->useref = useref; me->ref = ref;
  swapcontext(&me->ctx, &me->back);
  return me->got;
}
static void entry(unsigned lo, unsigned hi) { Co *c = (Co *)((uintptr_t)lo | ((uintptr_t)hi << 32)); c->fn(); c->done = true; swapcontext(&c->ctx, &c->back); }
static void resume(Co *c) {
  Co *sv = cur; cur = c; swapcontext(&c->back, &c->ctx); cur = sv;
  if (c->done) c->stack = std::vector<char>();
}
static bool matches(const Co &c, const Msg &m) { return !c.done && c.waiting && c.ep == m.ep && (!c.useref || c.ref == m.ref); }
static Co *target(int c, const Msg &m) { for (auto &k : cos[c]) if (matches(*k, m)) return k.get(); return nullptr; }
static bool enabled(int c, const Msg &m) { return !m.consumed && (eps[m.ep].spawn || target(c, m)); }
static void step(int c, Msg *m) {
  Ev e; e.chare = c; e.m = m; e.pre = clk[c];
  for (auto &k : cos[c]) if (!k->done && k->waiting) e.waits.push_back({k->ep, k->useref, k->ref});
  m->consumed = true; e.n = nev[c]++; seq[c] = 0;
  for (int j = 0; j < nch; j++) clk[c][j] = std::max(clk[c][j], m->vc[j]);
  clk[c][c] = nev[c];
  trace.push_back(e); curch = c;
  if (eps[m->ep].spawn) {
    auto k = std::make_unique<Co>(); k->chare = c; k->stack.resize(1 << 20); Co *p = k.get();
    p->fn = [c, m]() { eps[m->ep].run(c, m); };
    getcontext(&p->ctx); p->ctx.uc_stack.ss_sp = p->stack.data(); p->ctx.uc_stack.ss_size = p->stack.size(); p->ctx.uc_link = nullptr;
    uintptr_t v = (uintptr_t)p; makecontext(&p->ctx, (void (*)())entry, 2, (unsigned)v, (unsigned)(v >> 32));
    cos[c].push_back(std::move(k)); resume(p);
  } else {
    Co *p = target(c, *m); p->waiting = false; p->got = m; resume(p);
  }
  curch = -1;
  auto &v = cos[c]; v.erase(std::remove_if(v.begin(), v.end(), [](const std::unique_ptr<Co> &k) { return k->done; }), v.end());
}
typedef std::array<int, 4> Id; // src, srcev, srcseq, (dest is implied) ep
static Id id(const Msg *m) { return {m->src, m->srcev, m->srcseq, m->ep}; }
// policy: 0 round robin; 1+2i: chare i runs whenever it can; 2+2i: chare i runs only when nothing else can. newest: prefer late messages.
bool runall(int policy, int newest, std::vector<std::vector<Id>> &forced, long maxev) {
  int rr = 0;
  while (failure.empty()) {
    std::vector<int> order; for (int k = 0; k < nch; k++) order.push_back((rr + k) % nch);
    if (policy > 0) {
      int who = (policy - 1) / 2; bool first = (policy - 1) % 2 == 0;
      order.erase(std::find(order.begin(), order.end(), who));
      if (first) order.insert(order.begin(), who); else order.push_back(who);
    }
    int c = -1; Msg *best = nullptr; bool forcedblocked = false;
    for (int cand : order) {
      best = nullptr; size_t n = nev[cand];
      if (n < forced[cand].size()) {
        for (Msg *m : inbox[cand]) if (enabled(cand, *m) && id(m) == forced[cand][n]) best = m;
        if (!best) forcedblocked = true;
      } else
        for (Msg *m : inbox[cand]) if (enabled(cand, *m) && (!best || newest)) best = m;
      if (best) { c = cand; break; }
    }
    if (c < 0) { if (forcedblocked) return false; break; }
    if ((long)trace.size() > maxev) { fail("more than %ld events", maxev); break; }
    step(c, best); rr = (c + 1) % nch;
  }
  return true;
}
// coroutines still blocked at the end
std::string blocked() {
  std::string s;
  for (int c = 0; c < nch; c++) for (auto &k : cos[c]) if (!k->done) { char b[200]; snprintf(b, sizeof b, "%schare %d waits for %s", s.empty() ? "" : "; ", c, eps[k->ep].name); s += b; }
  return s;
}
void printtrace(FILE *f) {
  fprintf(f, "EVENTS %zu\n", trace.size());
  for (auto &e : trace) fprintf(f, "E %d %d %d %d %d\n", e.chare, e.m->src, e.m->srcev, e.m->srcseq, e.m->ep);
  long races = 0;
  for (auto &e : trace)
    for (Msg *m : inbox[e.chare]) {
      if (m == e.m) continue;
      // consumed earlier than e?
      bool ok = eps[m->ep].spawn;
      for (auto &w : e.waits) if (w[0] == m->ep && (!w[1] || w[2] == m->ref)) ok = true;
      if (!ok || m->vc[e.chare] > e.n || e.n >= m->lost) continue;
      bool before = false;
      for (auto &g : trace) { if (&g == &e) break; if (g.m == m) { before = true; break; } }
      if (before) continue;
      races++;
      fprintf(f, "R %d %d %d %d %d %d", e.chare, e.n, m->src, m->srcev, m->srcseq, m->ep);
      for (int j = 0; j < nch; j++) fprintf(f, " %d", std::max(m->vc[j], e.pre[j]));
      fprintf(f, "\n");
    }
  fprintf(f, "RACES %ld\n", races);
}
long unconsumed(int ep) { long n = 0; for (auto &b : inbox) for (Msg *m : b) if (m->ep == ep && !m->consumed) n++; return n; }
std::vector<std::pair<std::string, std::string>> files;
} // namespace vf

static void fire_now(const CkCallback &cb, std::function<void *()> make) {
  for (int d : cb.dests) { auto m = new vf::PtrMsg; m->ep = cb.ep; m->obj = make(); vf::stamp(m); vf::put(d, m); }
}
namespace vf {
std::function<void(int)> restart; // replaces chare i by what it packs
int checkpoints = 0; long restartat = 0; // bit k: the run is restarted from checkpoint k
}
void CkStartCheckpoint(const char *, CkCallback cb) {
  if (vf::restart && vf::checkpoints < 60 && (vf::restartat >> vf::checkpoints & 1))
    for (int c = 0; c < vf::nch; c++) {
      for (vf::Msg *m : vf::inbox[c]) if (!m->consumed) { m->consumed = true; m->lost = vf::nev[c]; } // what is under way is not in the checkpoint
      vf::restart(c);
    }
  vf::checkpoints++;
  fire_now(cb, []() { return (void *)nullptr; });
}
void CkExit() { vf::exits++; }

void vf_fire(const CkCallback &cb, const std::vector<int> &vc, int src, int srcev, int &srcseq, std::function<void *()> make) {
  for (int d : cb.dests) { auto m = new vf::PtrMsg; m->ep = cb.ep; m->obj = make(); vf::deliver_from(vc, src, srcev, srcseq++, d, m); }
}

struct Red { std::vector<double> sum; int n = 0; std::vector<int> vc; };
static std::vector<std::vector<std::vector<double>>> parts; // [reduction number][chare]
static std::vector<int> redno; static std::vector<Red> reds;
void vf_contribute(int chare, const std::vector<double> &d, CkReduction::R, const CkCallback &cb) {
  if (redno.empty()) redno.assign(vf::nch, 0);
  int r = redno[chare]++;
  if ((int)reds.size() <= r) { reds.resize(r + 1); parts.resize(r + 1); }
  if (parts[r].empty()) { parts[r].resize(vf::nch); reds[r].vc.assign(vf::nch, 0); }
  parts[r][chare] = d; reds[r].n++;
  auto v = vf::nowvc(); for (int j = 0; j < vf::nch; j++) reds[r].vc[j] = std::max(reds[r].vc[j], v[j]);
  if (reds[r].n == vf::nch) {
    std::vector<double> s;
    for (auto &p : parts[r]) { if (s.empty()) s.assign(p.size(), 0.0); if (s.size() != p.size()) vf::fail("chares contribute arrays of different lengths"); else for (size_t i = 0; i < s.size(); i++) s[i] += p[i]; }
    int q = 0; vf_fire(cb, reds[r].vc, -2, r, q, [s]() { auto m = new CkReductionMsg; m->d = s; return (void *)m; });
  }
}

namespace Ck { namespace IO {
struct S { int file; size_t bytes, offset, got = 0; CkCallback complete; std::vector<int> vc; std::vector<unsigned char> hit; };
static std::vector<std::pair<std::string, std::vector<char>>> fs; static std::vector<S> ss; static std::vector<bool> isopen;
static void finish(int id) { S &s = ss[id]; int q = 0; vf_fire(s.complete, s.vc, -3, id, q, []() { return (void *)new CkReductionMsg; }); }
void open(std::string name, CkCallback cb, Options) { File f; f.id = (int)fs.size(); fs.push_back({name, {}}); isopen.push_back(true); fire_now(cb, [f]() { auto m = new FileReadyMsg; m->file = f; return (void *)m; }); }
void startSession(File f, size_t bytes, size_t offset, CkCallback ready, CkCallback complete) {
  if (f.id < 0 || f.id >= (int)fs.size() || !isopen[f.id]) { vf::fail("session on a file that is not open"); return; }
  Session s; s.id = (int)ss.size(); ss.push_back({f.id, bytes, offset, 0, complete, vf::nowvc(), std::vector<unsigned char>(bytes, 0)});
  fs[f.id].second.resize(std::max(fs[f.id].second.size(), offset + bytes), 0);
  fire_now(ready, [s]() { auto m = new SessionReadyMsg; m->session = s; return (void *)m; });
  if (!bytes) finish(s.id);
}
void write(Session s, const char *d, size_t n, size_t off) {
  if (s.id < 0 || s.id >= (int)ss.size()) { vf::fail("write to a session that does not exist"); return; }
  S &t = ss[s.id];
  if (off < t.offset || off + n > t.offset + t.bytes) { vf::fail("write of %zu bytes at %zu in %s, outside the session of %zu bytes", n, off, fs[t.file].first.c_str(), t.bytes); return; }
  for (size_t i = 0; i < n; i++) { auto &h = t.hit[off - t.offset + i]; if (h) { vf::fail("byte %zu of %s is written twice", off + i, fs[t.file].first.c_str()); return; } h = 1; }
  memcpy(fs[t.file].second.data() + off, d, n); t.got += n;
  auto v = vf::nowvc(); for (size_t j = 0; j < v.size(); j++) t.vc[j] = std::max(t.vc[j], v[j]);
  if (n && t.got == t.bytes) finish(s.id);
}
void close(File f, CkCallback cb) { if (f.id < 0 || !isopen[f.id]) { vf::fail("closing a file that is not open"); return; } isopen[f.id] = false; fire_now(cb, []() { return (void *)new CkReductionMsg; }); }
} }
namespace vf {
void dumpfiles() {
  for (size_t i = 0; i < Ck::IO::fs.size(); i++) {
    bool full = true; for (auto &s : Ck::IO::ss) if (s.file == (int)i && s.got != s.bytes) full = false;
    files.push_back({Ck::IO::fs[i].first, std::string(Ck::IO::fs[i].second.begin(), Ck::IO::fs[i].second.end())});
    if (!full) fail("file %s is incomplete", Ck::IO::fs[i].first.c_str());
    if (Ck::IO::isopen[i]) fail("file %s is never closed", Ck::IO::fs[i].first.c_str());
  }
}
}
