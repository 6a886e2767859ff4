// Stateless explicit exploration core.
//
// A scenario is a function that executes operations of the real code and, in
// lockstep, of a reference model.  Every nondeterministic decision (which
// operation, which length, which tamper position, which scheduler step ...)
// goes through choose(n).  The explorer re-executes the scenario from scratch
// for every sequence of choices, depth first, until the whole choice tree is
// exhausted: there is no sampling and no pruning of implementation states.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>

namespace mc {

typedef uint8_t b8;
typedef uint32_t b32;
typedef uint64_t b64;

static inline b64 mix64(b64 a, b64 b) {
  __uint128_t m = (__uint128_t)(a ^ 0x9E3779B97F4A7C15ULL) * (b ^ 0xD6E8FEB86659FD93ULL);
  return (b64)m ^ (b64)(m >> 64);
}
static inline b64 hashb(const void *p, size_t n, b64 seed = 0x51ED270B) {
  const b8 *q = (const b8 *)p;
  b64 h = seed ^ (n * 0xA0761D6478BD642FULL);
  while (n >= 8) { b64 v; memcpy(&v, q, 8); h = mix64(h ^ v, 0xE7037ED1A0B428DBULL + v); q += 8; n -= 8; }
  b64 v = 0;
  if (n) memcpy(&v, q, n);
  return mix64(h ^ v, 0x8EBC6AF09C88C6E3ULL ^ n);
}

// open addressing set of state fingerprints
struct FpSet {
  std::vector<b64> t; size_t cnt = 0;
  FpSet() : t(1 << 12, 0) {}
  bool insert(b64 h) {
    if (!h) h = 1;
    if ((cnt + 1) * 2 > t.size()) grow();
    size_t m = t.size() - 1, i = h & m;
    while (t[i]) { if (t[i] == h) return false; i = (i + 1) & m; }
    t[i] = h; cnt++; return true;
  }
  void grow() {
    std::vector<b64> o; o.swap(t); t.assign(o.size() * 2, 0); cnt = 0;
    for (b64 x : o) if (x) insert(x);
  }
};

enum { PATHMAX = 4096, PERTURB = 0x4B };
struct Shared { volatile b64 exec; volatile int n; volatile int v[PATHMAX]; char what[256]; };

struct Ctx {
  std::string prop, scen, outfile, trfile;
  bool thorough = false, noref = false;
  b64 seed = 1;
  int sh_i = 0, sh_n = 1, sh_d = 0;   // this shard, number of shards, depth at which the tree is divided (0: not known yet)
  std::string fpfile;
  std::vector<int> path, lim; size_t pos = 0;
  bool replaying = false, logging = false;
  std::string logbuf;
  b64 transitions = 0, execs = 0, checks = 0;
  b64 stop_at = ~0ULL;            // stop after this execution index (replay by history)
  FpSet states;
  std::vector<std::string> samples;
  b64 trh = 0; FILE *trf = nullptr;
  Shared *sh = nullptr;
  Shared local;
  bool failed = false; std::string failmsg;
  std::vector<std::string> notes;
  int out_fd = 1;
};
extern Ctx C;

[[noreturn]] void finish(int rc);
void sched_fail_hook(const char *) __attribute__((weak));

static inline void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static inline void logf(const char *fmt, ...) {
  if (!C.logging) return;
  char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (C.logbuf.size() < 200000) { C.logbuf += b; C.logbuf += "\n"; }
}
static inline std::string hex(const void *p, size_t n, size_t max = 48) {
  std::string s; char b[4];
  for (size_t i = 0; i < n && i < max; i++) { snprintf(b, 4, "%02x", ((const b8 *)p)[i]); s += b; }
  if (n > max) s += "...";
  return s;
}
[[noreturn]] static inline void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] static inline void fail(const char *fmt, ...) {
  char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (sched_fail_hook) sched_fail_hook(b);
  C.failed = true; C.failmsg = b;
  finish(1);
}
// one operation of the real code executed
static inline void step(b64 n = 1) { C.transitions += n; }
static inline void state(b64 h) { C.states.insert(h); }
static inline void tr(const void *p, size_t n) { C.trh = hashb(p, n, C.trh + 0x1234567); }
static inline void tr(b64 v) { C.trh = mix64(C.trh + 0x777, v); }

static inline void eq(const char *what, const void *got, const void *want, size_t n) {
  C.checks++;
  if (C.noref) { tr(got, n); return; }
  if (n == 0 || memcmp(got, want, n) == 0) return;
  const b8 *g = (const b8 *)got, *w = (const b8 *)want;
  size_t i = 0; while (g[i] == w[i]) i++;
  size_t s = i > 8 ? i - 8 : 0;
  fail("%s: differs from the specification at byte %zu of %zu: got ..%s expected ..%s", what, i, n,
       hex(g + s, n - s, 32).c_str(), hex(w + s, n - s, 32).c_str());
}
static inline void eqv(const char *what, b64 got, b64 want) {
  C.checks++;
  if (C.noref) { tr(got); return; }
  if (got != want) fail("%s: got 0x%llx, expected 0x%llx", what, (unsigned long long)got, (unsigned long long)want);
}

static inline bool mine() { long t = 0; for (size_t i = 0; i < C.pos && (int)i < C.sh_d; i++) t += C.path[i]; return t % C.sh_n == C.sh_i; }
static inline int choose(int n, const char *label = "") {
  if (n <= 0) { fprintf(stderr, "choose(%d)\n", n); exit(3); }
  if (C.pos == C.path.size()) {
    C.path.push_back(0); C.lim.push_back(n);
    if (C.path.size() >= PATHMAX) { fprintf(stderr, "path too long\n"); exit(3); }
  } else if (C.pos < C.lim.size() && C.lim[C.pos] != n && C.lim[C.pos] != -1) {
    fprintf(stderr, "scenario is not deterministic: choice %zu had %d options, now %d\n", C.pos, C.lim[C.pos], n); exit(3);
  } else C.lim[C.pos] = n;
  int v = C.path[C.pos];
  if (v >= n) { fprintf(stderr, "bad replay path\n"); exit(3); }
  C.sh->v[C.pos] = v; C.sh->n = (int)C.pos + 1;
  C.pos++;
  if ((int)C.pos == C.sh_d && !mine()) throw -1;   // another shard explores this subtree
  if (C.logging && *label) logf("choose %s = %d of %d", label, v, n);
  return v;
}
template <class T> static inline const T &pick(const std::vector<T> &v, const char *label = "") { return v[choose((int)v.size(), label)]; }

// ---- deterministic data -------------------------------------------------
struct Rng {
  b64 s;
  explicit Rng(b64 seed) : s(seed * 0x9E3779B97F4A7C15ULL + C.seed * 0xD1342543DE82EF95ULL + 0x1234567) {}
  b64 next() { s += 0x9E3779B97F4A7C15ULL; b64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
  void fill(void *p, size_t n) { b8 *q = (b8 *)p; while (n >= 8) { b64 v = next(); memcpy(q, &v, 8); q += 8; n -= 8; } if (n) { b64 v = next(); memcpy(q, &v, n); } }
};
static inline std::vector<b8> rnd(size_t n, b64 tag) { std::vector<b8> v(n); Rng r(tag); r.fill(v.data(), n); return v; }

// ---- buffers with guard zones ------------------------------------------
// place 0: canaries on both sides; 1: ends at an inaccessible page; 2: starts behind one
struct Arena { b8 *base; size_t pages; };
Arena arena_get(size_t bytes);
void arena_put(Arena a);
struct IoCfg { int place = 0, ain = 0, aout = 0, ast = 0; bool inplace = false; int poison = 0xA5, pbytes = 4096; int fill = 0xA5; };
extern IoCfg IO;
struct Buf {
  enum { G = 64 };
  b8 *raw, *p; size_t n; b8 can, fillb; b64 h = 0; int place; Arena ar;
  Buf(size_t n_, int align = 0, int fill = 0xCC, int pl = 0) : n(n_), can((b8)(fill ^ 0x5A)), fillb((b8)fill), place(pl) {
    if (place == 0) {
      raw = (b8 *)malloc(n + 2 * G + 96);
      if (!raw) { fprintf(stderr, "out of memory\n"); exit(3); }
      p = (b8 *)(((uintptr_t)raw + G + 31) & ~(uintptr_t)31) + (align & 31);
      memset(p - G, can, G); memset(p, fill, n); memset(p + n, can, G);
    } else {
      ar = arena_get(n); raw = nullptr;
      size_t len = ar.pages * 4096;
      if (place == 1) { p = ar.base + len - n; slack_lo(ar.base, p - ar.base); }
      else { p = ar.base; slack_lo(p + n, len - n); }
      memset(p, fill, n);
    }
  }
  void slack_lo(b8 *q, size_t k) { memset(q, can, k < 4096 ? k : 4096); }
  Buf(const Buf &) = delete; Buf &operator=(const Buf &) = delete;
  ~Buf() { if (place) arena_put(ar); else free(raw); }
  void set(const void *src) { if (n) memcpy(p, src, n); }
  void freeze() { h = hashb(p, n); }
  void ck(const char *what) {
    C.checks++;
    size_t before = G, after = G;
    if (place == 1) { after = 0; size_t r = p - ar.base; before = r < G ? r : G; }
    if (place == 2) { before = 0; size_t r = ar.pages * 4096 - n; after = r < G ? r : G; }
    if (place == 1 && before < G) before = before < 4096 ? before : 4096;
    for (size_t i = 1; i <= before; i++) if (p[-(ptrdiff_t)i] != can && (place == 0 || ck_lo(i))) fail("%s: byte at offset %zu before the %zu-byte buffer was written", what, i, n);
    for (size_t i = 0; i < after; i++) if (p[n + i] != can) fail("%s: byte at offset %zu behind the %zu-byte buffer was written", what, i, n);
  }
  // in place 1 only the first 4096 slack bytes of the arena carry the canary
  bool ck_lo(size_t i) { return (size_t)(p - ar.base) - i < 4096; }
  void ckfrozen(const char *what) { ck(what); if (hashb(p, n) != h) fail("%s: input buffer of %zu bytes was modified", what, n); }
};
static inline void finding(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
// a violation identified by a stable key; the runner reports it unless the known-findings file lists it
static inline void finding(const char *key, const char *fmt, ...) {
  char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  std::string s = std::string("FINDING ") + key + " " + b;
  for (auto &x : C.notes) if (x == s) return;
  C.notes.push_back(s);
}

// leave a known pattern in the stack area the next call will use
__attribute__((noinline)) void poison_stack(int pat, size_t bytes);
// execute one operation of the real code, over a stack area with known contents
#define CALL(...) (mc::step(), mc::poison_stack(mc::IO.poison, mc::IO.pbytes), __VA_ARGS__)

// scenario registry
typedef void (*ScenFn)();
struct Scen { const char *name; ScenFn fn; Scen *next; static Scen *head; Scen(const char *n, ScenFn f) : name(n), fn(f), next(head) { head = this; } };
#define SCENARIO(nm) static void scen_##nm(); static mc::Scen reg_##nm(#nm, scen_##nm); static void scen_##nm()

} // namespace mc
