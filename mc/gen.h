// Generic pieces shared by the harnesses: argument buffers, packet transforms,
// and the scenarios every stateful primitive is put through.
#pragma once
#include "core.h"
#include <memory>
#include <mcheck.h>
#include <malloc.h>
namespace mc {

// an input argument of the real code: guarded, must not change
struct Arg {
  Buf b;
  Arg(const void *p, size_t n, int align = 0) : b(n, IO.place ? 0 : align, 0xCC, IO.place) { b.set(p); b.freeze(); }
  operator b8 *() { return b.p; }
  void ck(const char *w) { b.ckfrozen(w); }
};
// run a packet transformation of the real code and compare with the expected output
template <class F> static inline void xform(const char *what, size_t n, const b8 *data, const b8 *expect, F call) {
  if (IO.inplace) {
    Buf x(n, IO.place ? 0 : IO.aout, 0xCC, IO.place);
    x.set(data);
    call(x.p, x.p);
    x.ck(what); eq(what, x.p, expect, n);
  } else {
    Arg in(data, n, IO.ain);
    Buf out(n, IO.place ? 0 : IO.aout, 0xEE, IO.place);
    call(out.p, in.b.p);
    out.ck(what); in.ck(what); eq(what, out.p, expect, n);
  }
}
// a state object of the real code, in guarded memory filled with IO.fill; IO.ast varies its address
template <class T> struct St {
  Buf b;
  St() : b(sizeof(T), IO.place ? 0 : IO.ast * alignof(T), IO.fill, IO.place == 1 && sizeof(T) % alignof(T) ? 0 : IO.place) {}
  T *get() { return (T *)b.p; }
  operator T *() { return (T *)b.p; }
  void ck(const char *w) { b.ck(w); }
};

// one session of a primitive: real code and reference model in lockstep
struct Sess {
  virtual ~Sess() {}
  virtual int nops() const = 0;
  virtual bool can(int) const { return true; }
  virtual std::string nm(int k) const { return std::to_string(k); }
  virtual void op(int k) = 0;
  virtual b64 fp() const = 0;
  int pick() {
    int m[4096], c = 0;
    for (int k = 0; k < nops(); k++) if (can(k)) m[c++] = k;
    int k = m[choose(c)];
    if (C.logging) logf("  %s", nm(k).c_str());
    return k;
  }
};
typedef Sess *(*Mk)(int who);

// every sequence of operations up to the depth
static inline void g_history(Mk mk, int depth) {
  std::unique_ptr<Sess> s(mk(0));
  for (int d = 0; d < depth; d++) { s->op(s->pick()); state(s->fp()); }
}
// two sessions, every interleaving of every pair of operation sequences
static inline void g_interleave(Mk mk, int depth) {
  std::unique_ptr<Sess> s[2] = {std::unique_ptr<Sess>(mk(0)), std::unique_ptr<Sess>(mk(1))};
  for (int d = 0; d < depth; d++) {
    int w = choose(2); logf("session %d", w);
    s[w]->op(s[w]->pick()); state(mix64(s[0]->fp(), s[1]->fp() + 7));
  }
}
// leftover memory: the same operations over different contents of stack, heap and state object
static inline void g_memory(Mk mk, int depth) {
  static const int pats[] = {0x00, 0xFE, 0x80, 0x01, 0xA5};
  int ps = pats[choose(5, "stack")], ph = pats[choose(5, "heap")], pf = pats[choose(5, "state object")];
  IO.poison = ps; IO.pbytes = 1 << 16; IO.fill = pf;
  mallopt(M_PERTURB, (unsigned char)~ph);   // malloc'ed memory is filled with ph
  { // dirty the free lists too
    void *q[24]; for (int i = 0; i < 24; i++) { size_t n = 16u << (i % 12); q[i] = malloc(n); memset(q[i], ph, n); }
    for (int i = 0; i < 24; i++) free(q[i]);
  }
  std::unique_ptr<Sess> s(mk(0));
  for (int d = 0; d < depth; d++) { s->op(s->pick()); state(s->fp()); }
  mallopt(M_PERTURB, PERTURB);
}
// runs of operations: every pair of operations alternating, every operation on its own for longer than 2^16 calls
static inline void g_repeat(Mk mk, int pairs, int single) {
  std::unique_ptr<Sess> s(mk(0)); int n = s->nops(), a = choose(n, "operation"), b = choose(n, "alternating with"), N = a == b ? single : pairs;
  for (int i = 0; i < N; i++) {
    int k = i & 1 ? b : a;
    for (int j = 0; j < n && !s->can(k); j++) if (s->can(j)) s->op(j);
    if (s->can(k)) s->op(k);
    if (i < 8 || (i & (i - 1)) == 0) state(mix64(s->fp(), a * 64 + b));
  }
}
// ---- related inputs: a second string derived from a first one
typedef std::vector<b8> Vec;
static inline int nrel(int n) { return n <= 0 ? 1 : 3 * n + 14 + (n / 4) * (n / 4 - 1) / 2 + n - 1; }
static inline void relate(Vec &k, int r) {
  int n = k.size(); if (!n) return;
  if (r < n) { k[r] ^= 1; return; } r -= n;
  if (r < n) { k[r] ^= 0x80; return; } r -= n;
  if (r < n) { k[r] ^= 0xff; return; } r -= n;
  auto flip = [&](int a, int b) { for (int i = a < 0 ? 0 : a; i < b && i < n; i++) k[i] ^= 0x5c; };
  switch (r) {
    case 0: return;
    case 1: for (auto &x : k) x = ~x; return;
    case 2: for (int i = 0; i < n / 2; i++) std::swap(k[i], k[n - 1 - i]); return;
    case 3: case 4: { int d = r == 3 ? 1 : 4; Vec t(k); for (int i = 0; i < n; i++) k[i] = t[(i + d) % n]; return; }
    case 5: flip(0, n / 2); return;
    case 6: flip(n / 2, n); return;
    case 7: { Vec t(k); for (int i = 0; i < n; i++) k[i] = t[(i + n / 2) % n]; return; }
    case 8: flip(4, n); return;
    case 9: flip(0, n - 4); return;
    case 10: flip(8, n); return;
    case 11: flip(0, n - 8); return;
    case 12: k.assign(n, 0); return;
    case 13: k.assign(n, 0xff); return;
  }
  r -= 14;
  for (int i = 0; i < n / 4; i++) for (int j = i + 1; j < n / 4; j++) if (!r--) { for (int b = 0; b < 4; b++) std::swap(k[4 * i + b], k[4 * j + b]); return; }   // two words exchanged
  if (r >= 0 && r + 1 < n) { k[r]++; k[r + 1]--; }   // differences that cancel in a sum
}
// keys and IVs that are related to the ones loaded before, in the same state object, in another one, and in a re-created one.
// RK offers load(key, iv), change(key, iv, which) (load only the key or only the IV where the primitive allows it) and use(n)
template <class RK> static inline void g_rekey(int kl, int il) {
  int base = choose(2, "base"), r = choose(nrel(kl) + (il ? nrel(il) : 0), "relation"), obj = choose(3, "object"), u = choose(3, "use in between"), how = choose(2, "reload");
  Vec k1 = base ? Vec(kl, 0) : rnd(kl, 31), v1 = base ? Vec(il, 0) : rnd(il, 32), k2 = k1, v2 = v1; bool onkey = r < nrel(kl);
  if (onkey) relate(k2, r); else relate(v2, r - nrel(kl));
  static const int U[] = {0, 21, 100};
  std::unique_ptr<RK> a(new RK), o; RK *b = a.get();
  a->load(k1, v1); if (U[u]) a->use(U[u]);
  if (obj == 1) { o.reset(new RK); b = o.get(); }
  if (obj == 2) { a.reset(); a.reset(new RK); b = a.get(); }
  if (how && obj == 0) b->change(k2, v2, onkey ? 0 : 1); else b->load(k2, v2);
  b->use(23); if (obj == 1) a->use(17);
  if (how && obj == 0) b->change(k1, v1, onkey ? 0 : 1); else b->load(k1, v1);
  b->use(40); b->load(k2, v1); b->use(9); b->load(k2, v2); b->use(33); b->load(k1, v1); b->use(5);
  state(mix64(hashb(k2.data(), kl, hashb(v2.data(), il)), u + 4 * obj + 16 * how));
}
// placement / alignment / in-place variants of every operation
static inline void g_buffers(Mk mk, int depth, bool inplace_ok) {
  IO.place = choose(3, "placement");
  if (IO.place == 0) { IO.ain = choose(9, "input alignment"); IO.aout = choose(9, "output alignment"); IO.ast = IO.ain + 3 * IO.aout; }
  IO.inplace = inplace_ok && choose(2, "in place");
  std::unique_ptr<Sess> s(mk(0));
  for (int d = 0; d < depth; d++) { s->op(s->pick()); state(s->fp()); }
}
// every pair of operations of two sessions in two threads, every schedule within the preemption bound
#ifdef MC_SCHED
} // namespace mc
#include "sched.h"
namespace mc {
static inline void g_sched(Mk mk) {
  std::unique_ptr<Sess> probe(mk(0)); int n = probe->nops();
  int k0 = choose(n, "operation of thread 0"), k1 = choose(n, "operation of thread 1");
  int ks[2] = {k0, k1};
  sched_explore([&](int t) {
    std::unique_ptr<Sess> s(mk(t));
    for (int j = 0; j < n && !s->can(ks[t]); j++) if (s->can(j)) s->op(j);
    s->op(ks[t]);
  }, 2, C.thorough ? 20000 : 3000);
}
#define SCHED_SCENARIO SCENARIO(sched) { g_sched(mk); }
#else
#define SCHED_SCENARIO
#endif
} // namespace mc
