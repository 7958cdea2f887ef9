/* Deterministic OpenMP runtime with an exact data-race monitor.
 *
 * Replaces libgomp: the threads of a parallel region are coroutines, switched only at barriers and
 * work-sharing requests, in the order given by VF_OMP_ORDER (a permutation of the thread numbers,
 * which also fixes the number of threads).  Code compiled with -fsanitize=thread calls the
 * __tsan_* functions below instead of the real runtime: two accesses of one byte by different
 * threads between the same two barriers, at least one a write and not both atomic or under the
 * same lock, are a race.  If there is none, all interleavings of that phase give the same result,
 * so one order per phase stands for all of them. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
void *__real_memset(void *, int, size_t);

#define MAXT 8
#define STK (4 << 20)
typedef struct { ucontext_t ctx; char *stack; int state; } thr; /* 0 ready, 1 barrier, 2 done */
static thr th[MAXT];
static ucontext_t sched;
static int T = 1, order[MAXT] = {0}, cur = -1, region = 0, nraces = 0, ready = 0;
static uint32_t phase = 1;
static void (*the_fn)(void *);
static void *the_data;
unsigned long vf_regions, vf_phases, vf_accesses;
static int lockdepth, in_region_nt = 1;
static void init(void) {
  if (ready) return;
  ready = 1;
  const char *o = getenv("VF_OMP_ORDER");
  if (o && *o) { T = 0; for (; *o && T < MAXT; o++) order[T++] = *o - '0'; }
}

/* ------------------------------------------------------------------ shadow memory */
/* one cell per 8-byte word; per thread, the bytes written/read without and with protection */
typedef struct { uintptr_t a; uint32_t ph, pad; uint8_t w[MAXT], wp[MAXT], r[MAXT], rp[MAXT]; void *pc, *rpc; } cell;
static cell *tab; static size_t cap, used; static uint32_t used_ph;
static size_t hash(uintptr_t a) { return (size_t)((a * 0x9E3779B97F4A7C15ull) >> 20) & (cap - 1); }
static cell *table(size_t n) { void *p = mmap(0, n * sizeof(cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) _exit(97); return p; }
/* Cells of older phases are free: what happened then is ordered before this phase. */
static cell *find(uintptr_t a) {
  if (!tab) { cap = 1 << 16; tab = table(cap); }
  if (used_ph != phase) { used_ph = phase; used = 0; }
  if (used > cap / 2) {
    cell *old = tab; const size_t oc = cap;
    cap *= 2; tab = table(cap);
    for (size_t i = 0; i < oc; i++) if (old[i].ph == phase) { size_t h = hash(old[i].a); while (tab[h].ph == phase) h = (h + 1) & (cap - 1); tab[h] = old[i]; }
    munmap(old, oc * sizeof(cell));
  }
  size_t h = hash(a);
  while (tab[h].ph == phase && tab[h].a != a) h = (h + 1) & (cap - 1);
  if (tab[h].ph != phase) { tab[h] = (cell){0}; tab[h].a = a; tab[h].ph = phase; used++; }
  return &tab[h];
}
static void report(const char *k, uintptr_t a, int t1, void *p1, int t2, void *p2) {
  if (nraces++ < 5) fprintf(stdout, "RACE %s addr=%lx threads %d %d pc %p %p region %d\n", k, (unsigned long)a, t1, t2, p1, p2, region);
  fflush(stdout);
}
static void word(uintptr_t a, uint8_t m, int write, int prot, void *pc) {
  cell *c = find(a);
  for (int t = 0; t < T; t++) {
    if (t == cur) continue;
    const uint8_t cw = prot ? c->w[t] : (c->w[t] | c->wp[t]), cr = prot ? c->r[t] : (c->r[t] | c->rp[t]);
    if (cw & m) { report(write ? "write-write" : "write-read", a, t, c->pc, cur, pc); return; }
    if (write && (cr & m)) { report("read-write", a, t, c->rpc, cur, pc); return; }
  }
  if (write) { if (prot) c->wp[cur] |= m; else c->w[cur] |= m; c->pc = pc; }
  else { if (prot) c->rp[cur] |= m; else c->r[cur] |= m; c->rpc = pc; }
}
static void each(uintptr_t a, size_t n, void (*f)(uintptr_t, uint8_t, int, int, void *), int write, int prot, void *pc) {
  while (n) {
    const size_t off = a & 7, k = 8 - off < n ? 8 - off : n;
    f(a - off, (uint8_t)(((1u << k) - 1) << off), write, prot, pc);
    a += k; n -= k;
  }
}
static void acc(void *p, size_t n, int write, int atomic, void *pc) {
  vf_accesses++;
  if (cur < 0) return;
  each((uintptr_t)p, n, word, write, atomic || lockdepth > 0, pc);
}
static void clear(uintptr_t a, uint8_t m, int x, int y, void *pc) { (void)x; (void)y; (void)pc; cell *c = find(a); for (int t = 0; t < T; t++) { c->w[t] &= ~m; c->wp[t] &= ~m; c->r[t] &= ~m; c->rp[t] &= ~m; } }
/* fresh memory: what was done to it before is ordered before its allocation */
static void forget(void *p, size_t n) { if (cur >= 0 && p) each((uintptr_t)p, n, clear, 0, 0, 0); }

#define PC __builtin_return_address(0)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void *p) { acc(p, n, 0, 0, PC); } void __tsan_write##n(void *p) { acc(p, n, 1, 0, PC); } \
  void __tsan_volatile_read##n(void *p) { acc(p, n, 0, 0, PC); } void __tsan_volatile_write##n(void *p) { acc(p, n, 1, 0, PC); } \
  void __tsan_unaligned_read##n(void *p) { acc(p, n, 0, 0, PC); } void __tsan_unaligned_write##n(void *p) { acc(p, n, 1, 0, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { acc(p, n, 0, 0, PC); }
void __tsan_write_range(void *p, size_t n) { acc(p, n, 1, 0, PC); }
void __tsan_vptr_update(void **p, void *v) { (void)p; (void)v; }
#define ATOM(b, t) \
  t __tsan_atomic##b##_load(const volatile t *a, int o) { acc((void *)a, sizeof(t), 0, 1, PC); return *a; } \
  void __tsan_atomic##b##_store(volatile t *a, t v, int o) { acc((void *)a, sizeof(t), 1, 1, PC); *a = v; } \
  t __tsan_atomic##b##_exchange(volatile t *a, t v, int o) { acc((void *)a, sizeof(t), 1, 1, PC); t r = *a; *a = v; return r; } \
  t __tsan_atomic##b##_fetch_add(volatile t *a, t v, int o) { acc((void *)a, sizeof(t), 1, 1, PC); t r = *a; *a += v; return r; } \
  t __tsan_atomic##b##_fetch_sub(volatile t *a, t v, int o) { acc((void *)a, sizeof(t), 1, 1, PC); t r = *a; *a -= v; return r; } \
  t __tsan_atomic##b##_fetch_and(volatile t *a, t v, int o) { acc((void *)a, sizeof(t), 1, 1, PC); t r = *a; *a &= v; return r; } \
  t __tsan_atomic##b##_fetch_or(volatile t *a, t v, int o) { acc((void *)a, sizeof(t), 1, 1, PC); t r = *a; *a |= v; return r; } \
  t __tsan_atomic##b##_fetch_xor(volatile t *a, t v, int o) { acc((void *)a, sizeof(t), 1, 1, PC); t r = *a; *a ^= v; return r; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile t *a, t *e, t v, int o, int f) { acc((void *)a, sizeof(t), 1, 1, PC); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile t *a, t *e, t v, int o, int f) { acc((void *)a, sizeof(t), 1, 1, PC); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  t __tsan_atomic##b##_compare_exchange_val(volatile t *a, t e, t v, int o, int f) { acc((void *)a, sizeof(t), 1, 1, PC); t r = *a; if (r == e) *a = v; return r; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { (void)o; }
void __tsan_atomic_signal_fence(int o) { (void)o; }

/* ------------------------------------------------------------------ library calls that touch memory (ld --wrap) */
/* malloc and friends are defined here, so that shared libraries use them too */
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
static int poison = -1;
static void *fresh(void *p, size_t n, int fill) { if (poison < 0) poison = getenv("VF_POISON") != 0; forget(p, n); if (p && fill && poison) __real_memset(p, 0xff, n); return p; }
void *malloc(size_t n) { return fresh(__libc_malloc(n), n, 1); }
void *calloc(size_t a, size_t b) { return fresh(__libc_calloc(a, b), a * b, 0); }
void *realloc(void *q, size_t n) { return fresh(__libc_realloc(q, n), n, 0); }
void free(void *p) { __libc_free(p); }
void *aligned_alloc(size_t al, size_t n) { return fresh(__libc_memalign(al, n), n, 1); }
void *memalign(size_t al, size_t n) { return fresh(__libc_memalign(al, n), n, 1); }
int posix_memalign(void **o, size_t al, size_t n) { void *p = fresh(__libc_memalign(al, n), n, 1); if (!p) return 12; *o = p; return 0; }
void *__real_memcpy(void *, const void *, size_t); void *__real_memset(void *, int, size_t); void *__real_memmove(void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { acc((void *)s, n, 0, 0, PC); acc(d, n, 1, 0, PC); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { acc((void *)s, n, 0, 0, PC); acc(d, n, 1, 0, PC); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int v, size_t n) { acc(d, n, 1, 0, PC); return __real_memset(d, v, n); }

/* ------------------------------------------------------------------ threads */
static void entry(int k) { the_fn(the_data); th[k].state = 2; swapcontext(&th[k].ctx, &sched); }
static void yield_to_sched(int st) { const int k = cur; th[k].state = st; swapcontext(&th[k].ctx, &sched); }
static struct { long next, end, chunk, incr; int active, left; } ws[64]; static int wsi[MAXT], single_done[4096], si[MAXT];
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) {
  init(); (void)flags;
  int nt = n ? (int)n : T; if (nt > T) nt = T;
  if (cur >= 0 || nt <= 1) { fn(data); return; } /* nested regions run on one thread */
  the_fn = fn; the_data = data; region++; phase++; vf_regions++; in_region_nt = nt;
  for (int k = 0; k < nt; k++) {
    if (!th[k].stack) th[k].stack = aligned_alloc(64, STK);
    getcontext(&th[k].ctx); th[k].ctx.uc_stack.ss_sp = th[k].stack; th[k].ctx.uc_stack.ss_size = STK; th[k].ctx.uc_link = &sched;
    makecontext(&th[k].ctx, (void (*)(void))entry, 1, k); th[k].state = 0; wsi[k] = si[k] = 0;
  }
  __real_memset(ws, 0, sizeof ws); __real_memset(single_done, 0, sizeof single_done);
  for (;;) {
    int live = 0, ran = 0;
    for (int i = 0; i < T; i++) {
      const int k = order[i]; if (k >= nt) continue;
      if (th[k].state == 0) { ran = 1; cur = k; swapcontext(&sched, &th[k].ctx); cur = -1; }
      if (th[k].state != 2) live++;
    }
    if (!live) break;
    if (!ran || 1) { int all = 1; for (int k = 0; k < nt; k++) if (th[k].state == 0) all = 0; if (all) { for (int k = 0; k < nt; k++) if (th[k].state == 1) th[k].state = 0; phase++; vf_phases++; } }
  }
  phase++; vf_phases++; in_region_nt = 1;
}
void GOMP_parallel_reductions(void (*fn)(void *), void *d, unsigned n, unsigned f) { GOMP_parallel(fn, d, n, f); }
void GOMP_barrier(void) { if (cur >= 0) yield_to_sched(1); }
int omp_get_thread_num(void) { return cur < 0 ? 0 : cur; }
int omp_get_num_threads(void) { return cur < 0 ? 1 : in_region_nt; }
int omp_get_max_threads(void) { init(); return T; }
int omp_get_num_procs(void) { init(); return T; }
int omp_in_parallel(void) { return cur >= 0; }
void omp_set_num_threads(int n) { (void)n; }
double omp_get_wtime(void) { return 0.0; }
void GOMP_critical_start(void) { lockdepth++; }
void GOMP_critical_end(void) { lockdepth--; }
void GOMP_critical_name_start(void **p) { (void)p; lockdepth++; }
void GOMP_critical_name_end(void **p) { (void)p; lockdepth--; }
void GOMP_atomic_start(void) { lockdepth++; }
void GOMP_atomic_end(void) { lockdepth--; }
bool GOMP_single_start(void) { if (cur < 0) return true; const int i = si[cur]++; if (single_done[i]) return false; single_done[i] = 1; return true; }
static bool grab(long *a, long *b) {
  const int w = wsi[cur < 0 ? 0 : cur];
  if (cur >= 0) yield_to_sched(0);
  if (ws[w].incr > 0 ? ws[w].next >= ws[w].end : ws[w].next <= ws[w].end) return false;
  *a = ws[w].next; long e = *a + ws[w].chunk * ws[w].incr;
  if (ws[w].incr > 0 ? e > ws[w].end : e < ws[w].end) e = ws[w].end;
  *b = e; ws[w].next = e; return true;
}
static bool wstart(long s, long e, long inc, long ch, long *a, long *b) {
  const int w = wsi[cur < 0 ? 0 : cur];
  if (!ws[w].active) { ws[w].active = 1; ws[w].next = s; ws[w].end = e; ws[w].incr = inc; ws[w].chunk = ch > 0 ? ch : 1; }
  return grab(a, b);
}
#define LOOPS(nm) bool GOMP_loop_##nm##_start(long s, long e, long i, long c, long *a, long *b) { return wstart(s, e, i, c, a, b); } bool GOMP_loop_##nm##_next(long *a, long *b) { return grab(a, b); }
LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { return wstart(s, e, i, 1, a, b); }
bool GOMP_loop_runtime_next(long *a, long *b) { return grab(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return wstart(s, e, i, 1, a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return grab(a, b); }
void GOMP_loop_end(void) { if (cur >= 0) { wsi[cur]++; yield_to_sched(1); } else __real_memset(ws, 0, sizeof ws); }
void GOMP_loop_end_nowait(void) { if (cur >= 0) wsi[cur]++; else __real_memset(ws, 0, sizeof ws); }
static struct { void (*fn)(void *); void *data; long s, e, i, c; } pl;
static void pl_fn(void *d) { (void)d; const int w = 0; if (!ws[w].active) { ws[w].active = 1; ws[w].next = pl.s; ws[w].end = pl.e; ws[w].incr = pl.i; ws[w].chunk = pl.c > 0 ? pl.c : 1; } pl.fn(pl.data); }
#define PLOOP(nm) void GOMP_parallel_loop_##nm(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { pl.fn = fn; pl.data = d; pl.s = s; pl.e = e; pl.i = i; pl.c = c; \
  if (cur >= 0 || T <= 1) { const int w = wsi[cur < 0 ? 0 : cur]; ws[w].active = 1; ws[w].next = s; ws[w].end = e; ws[w].incr = i; ws[w].chunk = c > 0 ? c : 1; fn(d); __real_memset(ws, 0, sizeof ws); return; } GOMP_parallel(pl_fn, 0, n, f); }
PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, f); }
__attribute__((destructor)) static void fini(void) { if (getenv("VF_OMP_STATS")) { fprintf(stdout, "OMPSTATS regions=%lu phases=%lu accesses=%lu races=%d\n", vf_regions, vf_phases, vf_accesses, nraces); fflush(stdout); } }
