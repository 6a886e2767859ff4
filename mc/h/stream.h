// Scenarios common to the stream ciphers.  The including file defines
//   struct Cx { void key(k,kn); void iv(v); bool ready(); void pkt(m,n); void ref(o,m,n); void raw(o,i,n); b64 fp(); }
// with  NK (key lengths array size), KL[] key lengths, IVN, and HIST / EXTRA packet sizes.
#pragma once
#include "../gen.h"
#include "../big.h"
namespace mc {
static const int SZ[] = {16, 0, 1, 3, 4, 5, 15, 17, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, BIGSZ};
static int nsz() { return C.thorough ? 21 : 16; }
struct S : Sess {
  Cx c; int who;
  S(int w) : who(w) {}
  int nops() const override { return 5 + nsz(); }
  bool can(int k) const override { return k < 3 || (k < 5 ? c.keyed : c.ready()); }
  std::string nm(int k) const override { return k < 3 ? "load key " + std::to_string(k) : k < 5 ? "load IV " + std::to_string(k - 3) : "packet of " + std::to_string(SZ[k - 5]); }
  void op(int k) override {
    if (k < 3) { int n = KL[k % NK]; auto v = k ? rnd(n, 50 + 7 * who + k) : std::vector<b8>(n, 0xff); c.key(v.data(), n); }
    else if (k < 5) { auto v = k == 3 ? rnd(IVN, 60 + who) : std::vector<b8>(IVN, 0); c.iv(v.data()); }
    else { int n = SZ[k - 5]; c.pkt(rnd(n, 90 * who + k).data(), n); }
  }
  b64 fp() const override { return c.fp(); }
};
static Sess *mk(int w) { return new S(w); }
static std::vector<b8> dk(b64 t = 1) { return rnd(KL[0], t); }
static void run1(const std::vector<b8> &k, const std::vector<b8> &v, const std::vector<b8> &m) { Cx c; c.key(k.data(), k.size()); c.iv(v.data()); c.pkt(m.data(), m.size()); state(c.fp()); }
SCHED_SCENARIO
SCENARIO(history) { g_history(mk, C.thorough ? HD + 1 : HD); }
SCENARIO(interleave) { g_interleave(mk, ID); }
SCENARIO(memory) { g_memory(mk, MD); }
SCENARIO(buffers) { g_buffers(mk, MD, true); }
SCENARIO(buflen) {
  IO.place = choose(3, "placement"); if (!IO.place) { IO.ain = choose(9); IO.aout = choose(9); } IO.inplace = choose(2, "in place");
  int n = choose(200, "length"); Cx c; c.key(dk().data(), KL[0]); c.iv(rnd(IVN, 2).data()); auto m = rnd(n, 3); c.pkt(m.data(), n); c.pkt(m.data(), n); state(c.fp());
}
SCENARIO(lengths) {
  int n = choose(C.thorough ? 9000 : 4300, "length"), ct = choose(3, "content");
  run1(dk(), rnd(IVN, 2), ct == 0 ? rnd(n, 3) : std::vector<b8>(n, ct == 1 ? 0 : 0xff));
}
SCENARIO(split) {   // every pair of packet lengths, then one more packet
  int N = C.thorough ? 200 : 100, a = choose(N, "first"), b = choose(N, "second");
  Cx c; c.key(dk().data(), KL[0]); c.iv(rnd(IVN, 2).data()); auto m = rnd(N, 3);
  c.pkt(m.data(), a); state(c.fp()); c.pkt(m.data(), b); state(c.fp()); c.pkt(m.data(), 17); state(c.fp());
}
SCENARIO(split3) {
  int N = C.thorough ? 40 : 20, a = choose(N), b = choose(N), d = choose(N);
  Cx c; c.key(dk().data(), KL[0]); c.iv(rnd(IVN, 2).data()); auto m = rnd(N, 3);
  c.pkt(m.data(), a); c.pkt(m.data(), b); c.pkt(m.data(), d); c.pkt(m.data(), 33); state(c.fp());
}
SCENARIO(equalsplit) {  // one stream as equal packets of every length, through several table periods
  int n = 1 + choose(C.thorough ? 300 : 130, "packet length"); b64 total = C.thorough ? 40000 : 9000;
  Cx c; c.key(dk().data(), KL[0]); c.iv(rnd(IVN, 2).data()); auto m = rnd(n, 3);
  for (b64 o = 0; o < total; o += n) { c.pkt(m.data(), n); state(c.fp()); }
}
SCENARIO(keybytes) { int v = choose(256, "value"), p = choose(KL[0], "position"), bg = choose(3); auto k = bg == 2 ? rnd(KL[0], 8) : std::vector<b8>(KL[0], bg ? 0xff : 0); k[p] = v; run1(k, rnd(IVN, 2), rnd(40, 3)); }
SCENARIO(keybits) { int n = KL[0] * 8, i = choose(n, "bit"), j = choose(n, "bit"); std::vector<b8> k(KL[0], 0); k[i / 8] ^= 1 << i % 8; k[j / 8] ^= 1 << j % 8; run1(k, rnd(IVN, 2), rnd(16, 3)); }
SCENARIO(ivbytes) { int v = choose(256, "value"), p = choose(IVN, "position"), bg = choose(3); auto k = bg == 2 ? rnd(IVN, 8) : std::vector<b8>(IVN, bg ? 0xff : 0); k[p] = v; run1(dk(2), k, rnd(40, 3)); }
SCENARIO(ivbits) { int n = IVN * 8, i = choose(n, "bit"), j = choose(n, "bit"); std::vector<b8> k(IVN, 0); k[i / 8] ^= 1 << i % 8; k[j / 8] ^= 1 << j % 8; run1(dk(2), k, rnd(16, 3)); }
SCENARIO(databytes) { int v = choose(256, "value"), n = (const int[]){1, 4, 15, 16, 17, 35}[choose(6, "length")], p = choose(n, "position"), bg = choose(2); std::vector<b8> m(n, bg ? 0xff : 0); m[p] = v; run1(dk(2), rnd(IVN, 1), m); }
// every use of a session followed by reloading key and/or IV equals a fresh session (checked against the model)
SCENARIO(reload) {
  int a = choose(nsz(), "use"), k = choose(3, "what is reloaded"), n = choose(66, "packet");
  Cx c; c.key(dk().data(), KL[0]); c.iv(rnd(IVN, 2).data()); auto m = rnd(5000, 3); c.pkt(m.data(), SZ[a]);
  if (k != 1) c.key(dk(5).data(), KL[0]);
  if (k != 0 || !c.ready()) c.iv(rnd(IVN, 6).data());
  if (k == 2) c.iv(rnd(IVN, 7).data());
  c.pkt(m.data(), n); state(c.fp()); c.pkt(m.data(), 20); state(c.fp());
}
struct RK {
  Cx c;
  void load(const Vec &k, const Vec &v) { c.key(k.data(), KL[0]); c.iv(v.data()); }
  void change(const Vec &k, const Vec &v, int iv) { if (iv) c.iv(v.data()); else { c.key(k.data(), KL[0]); if (!c.ready()) c.iv(v.data()); } }
  void use(int n) { c.pkt(rnd(n, 3).data(), n); }
};
SCENARIO(rekey) { g_rekey<RK>(KL[0], IVN); }
SCENARIO(repeat) { g_repeat(mk, C.thorough ? 3000 : RP, C.thorough ? 300000 : RS); }
static void bulk(b64 n, b64 tail) {
  Cx c; c.key(dk().data(), KL[0]); c.iv(rnd(IVN, 2).data());
  BigIn in(n, 5); BigOut out(n);
  // the model works in another thread and leaves a hash of every megabyte
  const b64 part = 1 << 20; std::vector<b64> h; c.refstart();
  Beside b([&] { std::vector<b8> w(part); for (b64 o = 0; o < n; o += part) { b64 k = n - o < part ? n - o : part; c.refpart(w.data(), in.p + o, k, o + k == n); h.push_back(hashb(w.data(), k)); } });
  in_small_stack([&] { CALL(c.raw(out.p, in.p, n)); }); b.join();
  for (b64 o = 0, i = 0; o < n; o += part, i++) { b64 k = n - o < part ? n - o : part; if (hashb(out.p + o, k) != h[i]) fail("output differs in the megabyte that starts at byte %llu of %llu", (unsigned long long)o, (unsigned long long)n); state(h[i]); }
  auto m = rnd(tail, 9); c.pkt(m.data(), tail); state(c.fp());
}
SCENARIO(large) {
  static const b64 B[] = {1 << 12, 1 << 16, 1 << 18, 1 << 20, 1 << 22, 1 << 24}; static const int D[] = {-16, -1, 0, 1, 17};
  b64 n = B[choose(C.thorough ? 6 : 5, "size")]; bulk(n + D[choose(5, "offset")], 40);
}
SCENARIO(huge) { static const b64 D[] = {0, 5}; bulk((1ull << (C.thorough ? 29 : 27)) + D[choose(2, "size")], 40); }
SCENARIO(giga) { static const b64 D[] = {5}; bulk((1ull << 31) + D[choose(1, "size")], 40); }
SCENARIO(giga4) { bulk((1ull << 32) + 21, 40); }
} // namespace mc
