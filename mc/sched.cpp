#include "sched.h"
#include <sys/wait.h>
#include <link.h>
#include <ucontext.h>
#include <pthread.h>
#include <map>
#include <new>
#include <unordered_map>
extern "C" void *__libc_malloc(size_t);
namespace mc {
namespace {
enum { OFF, LOG, RUN };
const size_t ARENA = 1ull << 30, STK = 4 << 20, MAXLOG = 1 << 22, MAXPT = 1 << 16;
struct Ent { uintptr_t a; b8 m, w; };                 // 8-byte granule, byte mask, written mask
struct Sh {
  volatile int done, failed, npts; volatile b64 nacc; char msg[2048];
  volatile b32 nlog[2]; b8 runstill[MAXPT];
};
Sh *S;
Ent *L[2];
int mode = OFF, cur = 0;
struct Fib { ucontext_t uc; bool done; } F[2];
ucontext_t mainc;
b8 *stk[2], *arena[2]; size_t aoff[2];
bool infib = false;
std::unordered_map<uintptr_t, std::pair<b8, b8>> *lg;
std::unordered_map<uintptr_t, b8> *conf;
std::vector<int> *pre; size_t preat; int pt;   // preemptions of this schedule: indices of scheduling points
std::function<void(int)> *body;

// thread-local variables of the program: each fiber has its own copy, in its initial state (a new thread), exchanged at every switch
b8 *tls, *tlsv[2]; size_t tlsn, tlsimgn; const b8 *tlsimg;
int tls_find(dl_phdr_info *i, size_t, void *) {
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_phdr[k].p_memsz) { size_t a = i->dlpi_phdr[k].p_align ? i->dlpi_phdr[k].p_align : 1; tlsn = (i->dlpi_phdr[k].p_memsz + a - 1) / a * a; tls = (b8 *)__builtin_thread_pointer() - tlsn; tlsimg = (const b8 *)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); tlsimgn = i->dlpi_phdr[k].p_filesz; }
  return 1;   // the program itself comes first
}
void tls_init() {
  dl_iterate_phdr(tls_find, nullptr); if (!tlsn) return;
  memset(tls, 0, tlsn); memcpy(tls, tlsimg, tlsimgn);
  for (int t = 0; t < 2; t++) { tlsv[t] = (b8 *)__libc_malloc(tlsn); memcpy(tlsv[t], tls, tlsn); }
}
void tls_switch(int from, int to) { if (!tlsn) return; memcpy(tlsv[from], tls, tlsn); memcpy(tls, tlsv[to], tlsn); }
bool grouping = false, grouphit = false;
void point();

void ent(int t) { infib = true; (*body)(t); infib = false; F[t].done = true; S->done = S->done | 1 << t; }
void tramp(int t) { ent(t); if (F[1 - t].done || mode == LOG) setcontext(&mainc); cur = 1 - t; tls_switch(t, 1 - t); setcontext(&F[1 - t].uc); }
void mkfib(int t) { getcontext(&F[t].uc); F[t].uc.uc_stack.ss_sp = stk[t]; F[t].uc.uc_stack.ss_size = STK; F[t].uc.uc_link = nullptr; F[t].done = false; makecontext(&F[t].uc, (void (*)())tramp, 1, t); }

__attribute__((noinline)) void access(uintptr_t a, size_t n, bool w) {
  if (mode == OFF || !infib) return;
  if (tlsn && a - (uintptr_t)tls < tlsn) return;
  S->nacc = S->nacc + 1;
  if (mode == LOG) {
    infib = false;
    for (uintptr_t x = a; x < a + n;) { auto &e = (*lg)[x & ~7ull]; b8 m = 0; for (; x < a + n; ) { m |= 1 << (x & 7); x++; if (!(x & 7)) break; } e.first |= m; if (w) e.second |= m; }
    infib = true;
    return;
  }
  bool hit = false;
  for (uintptr_t x = a & ~7ull; x < a + n && !hit; x += 8) hit = conf->count(x);
  if (!hit) return;
  if (grouping) { grouphit = true; return; }
  point();
}
void point() {
  // scheduling point: 0 = go on, 1 = preempt
  bool other = !F[1 - cur].done;
  int k = pt++;
  if (k >= (int)MAXPT) return;
  S->npts = pt; S->runstill[k] = other;
  bool v = preat < pre->size() && (*pre)[preat] == k; if (v) preat++;
  if (v && other) { int me = cur; cur = 1 - me; tls_switch(me, 1 - me); swapcontext(&F[me].uc, &F[1 - me].uc); infib = true; }
}
void child_init() {
  for (int t = 0; t < 2; t++) aoff[t] = 0;
  C.sh = &C.local; tls_init();
  itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 60; setitimer(ITIMER_PROF, &it, nullptr);   // SIGPROF ends a runaway child with status 77
}
// run in a forked child; returns wait status
template <class G> int in_child(G g) {
  S->done = S->failed = S->npts = 0; S->nacc = 0; S->msg[0] = 0;
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) { fprintf(stderr, "fork failed\n"); exit(3); }
  if (p == 0) { child_init(); g(); _exit(0); }
  int st = 0; while (waitpid(p, &st, 0) < 0) {}
  return st;
}
} // namespace

// failures inside a child are reported through shared memory
static bool in_sched_child = false;
void sched_fail_hook(const char *m) { if (in_sched_child) { snprintf(S->msg, sizeof S->msg, "%s", m); S->failed = 1; _exit(9); } }

void *arena_alloc(size_t n) {
  if (!infib) return nullptr;
  int t = cur; n = (n + 31) & ~(size_t)31;
  if (aoff[t] + n > ARENA) return nullptr;
  void *p = arena[t] + aoff[t]; aoff[t] += n; return p;
}
bool arena_has(void *p) { for (int t = 0; t < 2; t++) if (arena[t] && (b8 *)p >= arena[t] && (b8 *)p < arena[t] + ARENA) return true; return false; }

int sched_who() { return infib ? cur : 0; }
// the other thread holds what this one needs: let it run
static bool other_runs() { if (mode != RUN || !infib || F[1 - cur].done) return false; int me = cur; cur = 1 - me; tls_switch(me, 1 - me); swapcontext(&F[me].uc, &F[1 - me].uc); infib = true; return true; }

static std::string sched_str(const std::vector<int> &v) { std::string s = "switch before conflicting access"; for (int i : v) s += " #" + std::to_string(i); return v.empty() ? "no preemption" : s; }

void sched_explore(std::function<void(int)> b, int bound, b64 cap) {
  if (!S) {
    S = (Sh *)mmap(0, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int t = 0; t < 2; t++) {
      L[t] = (Ent *)mmap(0, MAXLOG * sizeof(Ent), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      arena[t] = (b8 *)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      stk[t] = (b8 *)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
  }
  body = &b;
  auto report = [&](const char *ph, int st, const std::vector<int> &sch) {
    if (S->failed) fail("%s (%s): %s", ph, sched_str(sch).c_str(), S->msg);
    if (WIFSIGNALED(st)) fail("%s (%s): the process died with signal %d", ph, sched_str(sch).c_str(), WTERMSIG(st));
    if (WEXITSTATUS(st) == 77) fail("%s (%s): a call did not return within its CPU time bound", ph, sched_str(sch).c_str());
    if (WEXITSTATUS(st) == 3) { fprintf(stderr, "harness error in child\n"); exit(3); }
    fail("%s (%s): child ended with status %d", ph, sched_str(sch).c_str(), st);
  };
  // 1. each session alone, accesses logged
  for (int t = 0; t < 2; t++) {
    int st = in_child([&] {
      in_sched_child = true; lg = new std::unordered_map<uintptr_t, std::pair<b8, b8>>(); mode = LOG; cur = t;
      mkfib(t); swapcontext(&mainc, &F[t].uc); mode = OFF;
      b32 n = 0; for (auto &e : *lg) { if (n >= MAXLOG) { fprintf(stderr, "log full\n"); _exit(3); } L[t][n++] = Ent{e.first, e.second.first, e.second.second}; }
      S->nlog[t] = n;
    });
    if (st) report("one session alone", st, {});
    step();
  }
  // 2. conflicts
  static std::unordered_map<uintptr_t, b8> cf; cf.clear();
  { std::unordered_map<uintptr_t, const Ent *> m; for (b32 i = 0; i < S->nlog[0]; i++) m[L[0][i].a] = &L[0][i];
    for (b32 i = 0; i < S->nlog[1]; i++) { auto it = m.find(L[1][i].a); if (it == m.end()) continue; b8 c = (it->second->w & L[1][i].m) | (it->second->m & L[1][i].w); if (c) cf[L[1][i].a] = c; } }
  conf = &cf;
  C.checks += S->nlog[0] + S->nlog[1];
  // 3. schedules: none, one and two preemptions, earliest failure wanted, so the points are taken in a scattered order.
  // Beyond the cap the remaining budget is spread evenly over the schedules (and the note says so).
  b64 runs = 0; bool capped = false;
  for (int first = 0; first < 2; first++) {
    auto run = [&](std::vector<int> sch) {   // returns how many of its scheduling points could be a preemption
      int st = in_child([&] { in_sched_child = true; mode = RUN; cur = first; pre = &sch; preat = 0; pt = 0; mkfib(0); mkfib(1); swapcontext(&mainc, &F[first].uc); mode = OFF; if (S->done != 3) _exit(4); });
      runs++; step();
      if (st) report("two sessions interleaved", st, sch);
      state(mix64(hashb(sch.data(), sch.size() * sizeof(int), C.pos ? C.path[C.pos - 1] + 131 * C.path[0] : 0), first));
      int np = S->npts < (int)MAXPT ? S->npts : (int)MAXPT, hi = 0; while (hi < np && S->runstill[hi]) hi++; if (S->npts > (int)MAXPT) capped = true;
      return hi;
    };
    int n = run({}); if (!n || bound < 1) continue;
    int b = 0; while (1 << b < n) b++;
    int s1 = 1 + (int)(n / (cap / 4)); if (s1 > 1) capped = true;
    std::vector<std::pair<int, int>> one; b64 tot = 0;
    for (int x = 0; x < 1 << b; x++) { int i = 0; for (int k = 0; k < b; k++) i |= (x >> k & 1) << (b - 1 - k); if (i >= n || i % s1) continue; int hi = run({i}); if (hi > i + 1) { one.push_back({i, hi}); tot += hi - i - 1; } }
    if (bound < 2 || !tot) continue;
    b64 s2 = 1 + tot / (cap / 4), at = 0; if (s2 > 1) capped = true;
    for (auto &o : one) { for (int j = o.first + 1; j < o.second; j++) if (at++ % s2 == 0) run({o.first, j}); }
  }
  logf("accesses logged %u+%u granules, conflicting %zu, schedules %llu", (unsigned)S->nlog[0], (unsigned)S->nlog[1], cf.size(), (unsigned long long)runs);
  if (!cf.empty()) { char t[200]; snprintf(t, sizeof t, "conflicting accesses between two sessions: %s%s", capped ? "schedules capped" : "all schedules within the bound gave the right results", ""); bool seen = false; for (auto &x : C.notes) seen |= x == t; if (!seen) C.notes.push_back(t); }
}
} // namespace mc

using namespace mc;
extern "C" {
#define ACC(n) void __tsan_read##n(void *p) { access((uintptr_t)p, n, false); } void __tsan_write##n(void *p) { access((uintptr_t)p, n, true); } \
  void __tsan_unaligned_read##n(void *p) { access((uintptr_t)p, n, false); } void __tsan_unaligned_write##n(void *p) { access((uintptr_t)p, n, true); } \
  void __tsan_read_write##n(void *p) { access((uintptr_t)p, n, true); } void __tsan_unaligned_read_write##n(void *p) { access((uintptr_t)p, n, true); } \
  void __tsan_volatile_read##n(void *p) { access((uintptr_t)p, n, false); } void __tsan_volatile_write##n(void *p) { access((uintptr_t)p, n, true); } \
  void __tsan_unaligned_volatile_read##n(void *p) { access((uintptr_t)p, n, false); } void __tsan_unaligned_volatile_write##n(void *p) { access((uintptr_t)p, n, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_read_range(void *p, size_t n) { access((uintptr_t)p, n, false); }
void __tsan_write_range(void *p, size_t n) { access((uintptr_t)p, n, true); }
void __tsan_vptr_update(void *p, void *) { access((uintptr_t)p, 8, true); }
void __tsan_vptr_read(void *p) { access((uintptr_t)p, 8, false); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access((uintptr_t)s, n, false); access((uintptr_t)d, n, true); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access((uintptr_t)s, n, false); access((uintptr_t)d, n, true); return memmove(d, s, n); }
void *__tsan_memset(void *d, int v, size_t n) { access((uintptr_t)d, n, true); return memset(d, v, n); }
#define AT(n, T) T __tsan_atomic##n##_load(const volatile T *p, int) { return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##n##_store(volatile T *p, T v, int) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_exchange(volatile T *p, T v, int) { return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int) { return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int) { return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int) { return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int) { return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) { return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *c, T v, int, int) { return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
// locks and the guards of function-local statics
int __real_pthread_mutex_lock(void *);
int __wrap_pthread_mutex_lock(void *m) { if (!infib) return __real_pthread_mutex_lock(m); while (pthread_mutex_trylock((pthread_mutex_t *)m)) if (!other_runs()) return __real_pthread_mutex_lock(m); return 0; }
int __wrap___cxa_guard_acquire(volatile b8 *g) { while (!g[0] && g[1]) if (!other_runs()) { fprintf(stderr, "a static is initialised recursively\n"); abort(); } if (g[0]) return 0; g[1] = 1; return 1; }
void __wrap___cxa_guard_release(volatile b8 *g) { g[0] = 1; g[1] = 0; }
void __wrap___cxa_guard_abort(volatile b8 *g) { g[1] = 0; }
// a GMP call: regs are the six integer argument registers, kind one letter per argument:
// i number initialised, w written (maybe read), r read, s random state, - anything else
struct Mpz { int alloc, size; void *d; };
void mc_gmp_hook(b64 *regs, const char *kind) {
  if (mode == OFF || !infib) return;
  grouping = true; grouphit = false;
  for (int i = 0; i < 6 && kind[i]; i++) {
    Mpz *z = (Mpz *)regs[i];
    switch (kind[i]) {
      case 'i': access((uintptr_t)z, sizeof *z, true); break;
      case 'w': access((uintptr_t)z, sizeof *z, true); if (z->alloc > 0) access((uintptr_t)z->d, z->alloc * 8ull, true); break;
      case 'r': access((uintptr_t)z, sizeof *z, false); if (z->size) access((uintptr_t)z->d, (z->size < 0 ? -z->size : z->size) * 8ull, false); break;
      case 's': access((uintptr_t)z, 32, true); break;
    }
  }
  grouping = false;
  if (mode == RUN && grouphit) point();
}
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) { void *p = arena_alloc(n); return p ? p : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { void *p = arena_alloc(a * b); if (p) return memset(p, 0, a * b); return __real_calloc(a, b); }
void *__wrap_realloc(void *o, size_t n) { if (!o) return __wrap_malloc(n); if (arena_has(o)) { void *p = __wrap_malloc(n); memcpy(p, o, n); return p; } return __real_realloc(o, n); }
void __wrap_free(void *p) { if (p && !arena_has(p)) __real_free(p); }
}
void *operator new(size_t n) { void *p = arena_alloc(n); if (!p) p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
