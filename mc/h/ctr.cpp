// AES-CTR, one of the three directories, with or without hardware instructions.
#include "aes_ctr.h"
#include "../gen.h"
#include "../big.h"
#include "../ref/aes.h"
using namespace mc;
#ifndef REF_ROUNDS
#define REF_ROUNDS 10
#endif
#ifdef SLOW
#define Z(fast, slow) (slow)
#else
#define Z(fast, slow) (fast)
#endif
struct Ctr {
  St<aes_state> st; ref::AesCtr r;
  void key(const b8 *k) { Arg a(k, 16, IO.ain); CALL(aes_load_key(st, a)); r.key(k, REF_ROUNDS); a.ck("key"); st.ck("state"); }
  void iv(const b8 *n) { Arg a(n, 12, IO.ain); CALL(aes_load_iv(st, a)); r.iv(n); a.ck("nonce"); st.ck("state"); }
  void pkt(const b8 *m, size_t n) {
    std::vector<b8> w(n + 1); r.pkt(w.data(), m, n);
    xform("AES-CTR output", n, m, w.data(), [&](b8 *o, b8 *i) { CALL(aes_ctr_process_packet(st, o, i, (int)n)); });
    st.ck("state");
  }
};
static const int SZ[] = {16, 0, 1, 3, 4, 5, 15, 17, 31, 32, 33, 48, 64, 100, 7, 8, 12, 128, 255};
static int nsz() { return C.thorough ? 19 : 14; }
struct S : Sess {
  Ctr c; int who;
  S(int w) : who(w) {}
  int nops() const override { return 4 + nsz(); }
  bool can(int k) const override { return k < 4 || (c.r.keyed && c.r.ived); }
  std::string nm(int k) const override { return k < 2 ? "load key " + std::to_string(k) : k < 4 ? "load nonce " + std::to_string(k - 2) : "packet of " + std::to_string(SZ[k - 4]); }
  void op(int k) override {
    if (k == 0 || k == 3) { auto v = rnd(16, 50 + 7 * who + k); if (k == 0) c.key(v.data()); else c.iv(v.data()); }
    else if (k < 3) { std::vector<b8> v(16, k == 1 ? 0 : 0xff); if (k == 1) c.key(v.data()); else c.iv(v.data()); }
    else { int n = SZ[k - 4]; c.pkt(rnd(n, 90 * who + k).data(), n); }
  }
  b64 fp() const override { return (c.r.keyed ? 1 : 0) + (c.r.ived ? 2 : 0) == 3 ? c.r.fp() : c.r.keyed; }
};
static Sess *mk(int w) { return new S(w); }
static void run1(const std::vector<b8> &k, const std::vector<b8> &n, const std::vector<b8> &m) { Ctr c; c.key(k.data()); c.iv(n.data()); c.pkt(m.data(), m.size()); state(c.r.fp()); }
SCHED_SCENARIO
SCENARIO(history) { g_history(mk, Z(C.thorough ? 6 : 5, C.thorough ? 5 : 4)); }
SCENARIO(interleave) { g_interleave(mk, 5); }
SCENARIO(memory) { g_memory(mk, Z(C.thorough ? 5 : 4, 3)); }
SCENARIO(buffers) { g_buffers(mk, Z(C.thorough ? 5 : 4, 3), true); }
SCENARIO(buflen) {
  IO.place = choose(3, "placement"); if (!IO.place) { IO.ain = choose(9); IO.aout = choose(9); } IO.inplace = choose(2, "in place");
  int n = choose(Z(200, 70), "length"); Ctr c; c.key(rnd(16, 1).data()); c.iv(rnd(12, 2).data()); auto m = rnd(n, 3); c.pkt(m.data(), n); c.pkt(m.data(), n); state(c.r.fp());
}
SCENARIO(lengths) {
  int n = choose(Z(C.thorough ? 9000 : 4300, 1000), "length"), ct = choose(3, "content");
  run1(rnd(16, 1), rnd(12, 2), ct == 0 ? rnd(n, 3) : std::vector<b8>(n, ct == 1 ? 0 : 0xff));
}
SCENARIO(split) { // every pair of packet lengths, then one more packet
  int N = Z(C.thorough ? 200 : 100, 50), a = choose(N, "first"), b = choose(N, "second");
  Ctr c; c.key(rnd(16, 1).data()); c.iv(rnd(12, 2).data()); auto m = rnd(N, 3);
  c.pkt(m.data(), a); state(c.r.fp()); c.pkt(m.data(), b); state(c.r.fp()); c.pkt(m.data(), 17); state(c.r.fp());
}
SCENARIO(keybytes) { int v = choose(256, "value"), p = choose(16, "position"), bg = choose(3); auto k = bg == 2 ? rnd(16, 8) : std::vector<b8>(16, bg ? 0xff : 0); k[p] = v; run1(k, rnd(12, 2), rnd(33, 3)); }
SCENARIO(keybits) { int i = choose(128, "bit"), j = choose(128, "bit"); std::vector<b8> k(16, 0); k[i / 8] ^= 1 << i % 8; k[j / 8] ^= 1 << j % 8; run1(k, rnd(12, 2), rnd(16, 3)); }
SCENARIO(noncebytes) { int v = choose(256, "value"), p = choose(12, "position"), bg = choose(3); auto k = bg == 2 ? rnd(12, 8) : std::vector<b8>(12, bg ? 0xff : 0); k[p] = v; run1(rnd(16, 2), k, rnd(33, 3)); }
SCENARIO(databytes) { int v = choose(256, "value"), n = (const int[]){1, 4, 15, 16, 17, 35}[choose(6, "length")], p = choose(n, "position"), bg = choose(2); std::vector<b8> m(n, bg ? 0xff : 0); m[p] = v; run1(rnd(16, 2), rnd(12, 1), m); }
// counter carries: reach block 2^8 / 2^16 in packets of different sizes, fully compared
SCENARIO(carry) {
  int e = choose(Z(C.thorough ? 3 : 2, 1), "boundary"), d = choose(5, "offset"), sp = choose(3, "packet size"), t = choose(6, "tail");
  b64 blk = (e == 0 ? 256 : e == 1 ? 65536 : 131072) - 3 + d;
  Ctr c; c.key(rnd(16, 1).data()); c.iv(rnd(12, 2).data());
  b64 left = blk * 16, ps = sp == 0 ? left : sp == 1 ? 1040 : 65552; auto m = rnd(ps < left ? ps : left, 3);
  while (left) { b64 k = left < ps ? left : ps; c.pkt(m.data(), k); left -= k; }
  static const int T[] = {1, 16, 17, 33, 64, 80};
  c.pkt(m.data(), T[t]); c.pkt(m.data(), 20); state(c.r.fp());
}
// counter carry at 2^24 blocks (256 MiB) and sizes up to 2^31-1 bytes in one packet; windows compared at every 2^16 blocks and both ends
static void huge(b64 total, b64 ps, b64 tail) {
  Ctr c; auto k = rnd(16, 1), v = rnd(12, 2); c.key(k.data()); c.iv(v.data());
  BigIn in(ps, 5); BigOut out(ps); b64 off = 0;
  while (off < total) {
    b64 n = total - off < ps ? total - off : ps;
    in_small_stack([&] { CALL(aes_ctr_process_packet(c.st, out.p, in.p, (int)n)); });
    for (b64 w = 0; w < n;) {   // every window around a multiple of 2^16 blocks
      b64 b = (off + w) / 16, nb = (b | 0xffff) + 1; b64 lo = w, hi = w + 64 < n ? w + 64 : n;
      b8 x[256]; ref::AesCtr r = c.r; r.ctr = (b32)(1 + b); r.pkt(x, in.p + lo, hi - lo); eq("AES-CTR output window", out.p + lo, x, hi - lo);
      b64 e = nb * 16 - off; if (e > n) e = n;
      lo = e > w + 96 ? (e - 48) & ~15ull : e; if (lo < e) { ref::AesCtr q = c.r; q.ctr = (b32)(1 + (off + lo) / 16); q.pkt(x, in.p + lo, e - lo); eq("AES-CTR output window", out.p + lo, x, e - lo); }
      state(mix64(b, e)); w = e;
    }
    off += n;
  }
  c.r.ctr = (b32)(1 + (total + 15) / 16); auto m = rnd(tail, 9); c.pkt(m.data(), tail);
}
SCENARIO(huge) { static const b64 D[] = {0, 32, 5}; int d = choose(3, "size"); huge((1ull << 28) - 32 + D[d], d == 2 ? 1 << 28 : (1 << 24) + (d == 1 ? 16 : 0), 50); }
SCENARIO(maxpkt) { huge((1ull << 31) - 1, (1ull << 31) - 1, 50); }
struct RK {
  Ctr c;
  void load(const Vec &k, const Vec &v) { c.key(k.data()); c.iv(v.data()); }
  void change(const Vec &k, const Vec &v, int iv) { if (iv) c.iv(v.data()); else c.key(k.data()); }
  void use(int n) { c.pkt(rnd(n, 3).data(), n); }
};
SCENARIO(rekey) { g_rekey<RK>(16, 12); }
SCENARIO(repeat) { g_repeat(mk, Z(600, 60), Z(66000, 3000)); }
// four gigabytes and more in packets of 64 MiB: block numbers beyond 2^28, byte counts beyond 2^32
SCENARIO(giga) { huge((1ull << 32) + (1ull << 26) + 48, 1 << 26, 50); }
SCENARIO(large) {
  static const b64 B[] = {1 << 12, 1 << 16, 1 << 18, 1 << 20, 1 << 22, 1 << 24}; static const int D[] = {-16, -1, 0, 1, 17};
  b64 n = B[choose(Z(C.thorough ? 6 : 5, 4), "size")]; n += D[choose(5, "offset")];
  Ctr c; auto k = rnd(16, 1), v = rnd(12, 2); c.key(k.data()); c.iv(v.data()); auto m = rnd(n, 3); std::vector<b8> w(n), o(n);
  c.r.pkt(w.data(), m.data(), n); in_small_stack([&] { CALL(aes_ctr_process_packet(c.st, o.data(), m.data(), (int)n)); }); eq("AES-CTR output", o.data(), w.data(), n);
  c.pkt(m.data(), 40); state(c.r.fp());
}
