// ChaCha with 20, 12 or 8 rounds.
#include "chacha.h"
#include "../ref/stream.h"
#include "../core.h"
#include "../gen.h"
#ifdef TWELVE_ROUNDS
#define NR 12
#elif defined(EIGHT_ROUNDS)
#define NR 8
#else
#define NR 20
#endif
using namespace mc;
enum { NK = 1, IVN = 12, BIGSZ = 1025, HD = 5, ID = 4, MD = 3, RP = 600, RS = 66000 };
static const int KL[] = {32};
struct Cx {
  St<chacha_state> st; ref::ChaCha r; bool keyed = false, fresh = false; std::vector<b8> k, v; b32 part = 0;
  Cx() { r.rounds = NR; k = rnd(32, 71); v.assign(12, 7); }
  void init() { Arg a(k.data(), 32, IO.ain), b(v.data(), 12, IO.ain); CALL(chacha_initialize(st, a, b)); r.init(k.data(), v.data()); a.ck("key"); b.ck("nonce"); st.ck("state"); }
  void key(const b8 *x, int) { k.assign(x, x + 32); keyed = true; init(); }
  void iv(const b8 *x) { v.assign(x, x + 12); init(); }
  bool ready() const { return keyed; }
  void pkt(const b8 *m, size_t n) {
    std::vector<b8> w(n + 1); r.pkt(w.data(), m, n);
    xform("ChaCha output", n, m, w.data(), [&](b8 *o, b8 *i) { CALL(chacha_process_packet(st, o, i, n)); });
    st.ck("state");
  }
  void block(b32 ctr) { // keystream block, unaligned destination is not offered: the argument is a word array
    b8 w[64]; r.block(w, ctr); Buf o(64, 0, 0xEE, IO.place); CALL(chacha_block(st, ctr, (uint32_t *)o.p)); o.ck("keystream block"); st.ck("state"); eq("ChaCha keystream block", o.p, w, 64);
  }
  void raw(b8 *o, b8 *i, b64 n) { chacha_process_packet(st, o, i, n); }
  void refstart() { part = 1; }
  void refpart(b8 *o, const b8 *in, b64 n, bool) { b8 ks[64]; for (b64 i = 0; i < n; i += 64) { r.block(ks, part++); for (b64 j = i; j < n && j < i + 64; j++) o[j] = in[j] ^ ks[j - i]; } }
  b64 fp() const { return keyed ? hashb(k.data(), 32, hashb(v.data(), 12)) : 0; }
};
#include "stream.h"
// single blocks mixed with packets: every counter around every power of two, then a packet must start at block 1 again
SCENARIO(counters) {
  int e = choose(33, "power of two"), d = choose(9, "offset"), n = (const int[]){0, 1, 64, 65, 200}[choose(5, "packet")], c2 = choose(4);
  b32 ctr = (e == 32 ? 0 : 1u << e) + (b32)(d - 4); static const b32 C2[] = {0, 1, 0xffffffffu, 0x80000000u};
  Cx c; c.key(dk().data(), 32); c.iv(rnd(12, 2).data()); c.block(ctr); auto m = rnd(n, 3); c.pkt(m.data(), n); c.block(C2[c2]); c.block(ctr + 1); c.pkt(m.data(), n); state(mix64(ctr, n));
}
SCENARIO(counterseq) { int a = choose(C.thorough ? 70000 : 20000, "counter"), hi = choose(4); b32 ctr = (hi == 0 ? a : hi == 1 ? 0u - a : hi == 2 ? (b32)a << 16 : (b32)a * 2654435761u); Cx c; c.key(dk().data(), 32); c.iv(rnd(12, 2).data()); c.block(ctr); state(ctr); }
SCENARIO(blockkey) { int v = choose(256, "value"), p = choose(44, "position"), q = choose(4, "counter"); auto k = rnd(32, 8), n = rnd(12, 9); if (p < 32) k[p] = v; else n[p - 32] = v; Cx c; c.key(k.data(), 32); c.iv(n.data()); static const b32 C2[] = {0, 1, 0xffffffffu, 0x80000000u}; c.block(C2[q]); state(c.fp()); }
