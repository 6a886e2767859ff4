// Rabbit
#include "rabbit.h"
#include "../ref/stream.h"
#include "../core.h"
#include "../gen.h"
using namespace mc;
enum { NK = 1, IVN = 8, BIGSZ = 1025, HD = 5, ID = 4, MD = 3, RP = 600, RS = 66000 };
static const int KL[] = {16};
struct Cx {
  St<rabbit_state> st; ref::Rabbit r; bool keyed = false;
  void key(const b8 *x, int) { Arg a(x, 16, IO.ain); CALL(rabbit_load_key(st, a)); uint16_t k[8]; for (int i = 0; i < 8; i++) k[i] = x[2 * i] | x[2 * i + 1] << 8; r.key(k); keyed = true; a.ck("key"); st.ck("state"); }
  void iv(const b8 *x) { Arg a(x, 8, IO.ain); CALL(rabbit_load_iv(st, a)); b64 v; memcpy(&v, x, 8); r.iv(v); a.ck("IV"); st.ck("state"); }
  bool ready() const { return keyed; }
  void refpart(b8 *o, const b8 *in, b64 n, bool) { for (b64 i = 0; i < n; i += 16) { b32 w[4]; r.ks(w); for (b64 j = i; j < n && j < i + 16; j++) o[j] = in[j] ^ (b8)(w[(j - i) / 4] >> 8 * ((j - i) % 4)); } }
  void pkt(const b8 *m, size_t n) {
    std::vector<b8> w(n + 1); refpart(w.data(), m, n, true);
    xform("Rabbit output", n, m, w.data(), [&](b8 *o, b8 *i) { CALL(rabbit_process_packet(st, o, i, n)); });
    st.ck("state");
  }
  void block() { b32 w[4]; r.ks(w); Buf o(16, 0, 0xEE, IO.place); CALL(rabbit_extract_keystream(st, (uint32_t *)o.p)); o.ck("keystream block"); st.ck("state"); eq("Rabbit keystream block", o.p, w, 16); }
  void raw(b8 *o, b8 *i, b64 n) { rabbit_process_packet(st, o, i, n); }
  void refstart() {}
  b64 fp() const { return keyed ? hashb(&r.s, sizeof r.s, hashb(&r.master, sizeof r.master)) : 0; }
};
#include "stream.h"
// IVs solved so that chosen counter words land exactly below, on and above 2^32 in the first counter step
static void setpart(b64 &v, int j, b32 t, const ref::Rabbit &r) {  // make C[j] == t after the IV is mixed in
  b32 x = r.master.c[j] ^ t; b32 lo = (b32)v, hi = (b32)(v >> 32);
  switch (j & 3) {
    case 0: lo = x; break;
    case 2: hi = x; break;
    case 1: hi = (x & 0xffff0000u) | (hi & 0xffff); lo = x << 16 | (lo & 0xffff); break;
    case 3: hi = (hi & 0xffff0000u) | x >> 16; lo = (lo & 0xffff0000u) | (x & 0xffff); break;
  }
  v = (b64)hi << 32 | lo;
}
static const b32 AA[8] = {0x4D34D34D, 0xD34D34D3, 0x34D34D34, 0x4D34D34D, 0xD34D34D3, 0x34D34D34, 0x4D34D34D, 0xD34D34D3};
SCENARIO(carry1) {
  int kk = choose(C.thorough ? 32 : 8, "key"), j = choose(8, "counter word"), d = choose(7, "distance"), o = choose(4, "rest");
  Cx c; c.key(rnd(16, 100 + kk).data(), 16); b64 v = o == 0 ? 0 : o == 1 ? ~0ull : o == 2 ? 0x0123456789abcdefull : 0x8000000080000000ull;
  setpart(v, j, (b32)(0 - AA[j]) + (b32)(d - 4), c.r); b8 x[8]; memcpy(x, &v, 8); c.iv(x); state(c.fp()); for (int i = 0; i < 3; i++) c.block(); c.pkt(x, 5); state(c.fp());
}
SCENARIO(carry2) {
  static const int P[][2] = {{0, 2}, {0, 6}, {4, 2}, {4, 6}, {1, 3}, {1, 7}, {5, 3}, {5, 7}};
  int kk = choose(C.thorough ? 32 : 8, "key"), p = choose(8, "counter words"), d = choose(5, "distance"), e = choose(5, "distance");
  Cx c; c.key(rnd(16, 100 + kk).data(), 16); b64 v = 0; int j = P[p][0], q = P[p][1];
  setpart(v, j, (b32)(0 - AA[j]) + (b32)(d - 3), c.r); setpart(v, q, (b32)(0 - AA[q]) + (b32)(e - 3), c.r);
  b8 x[8]; memcpy(x, &v, 8); c.iv(x); for (int i = 0; i < 3; i++) c.block(); state(c.fp());
}
SCENARIO(blocks) { int n = choose(5, "IV loads"), m = choose(40, "blocks"), p = choose(3), k = choose(4); Cx c; c.key(rnd(16, k).data(), 16); auto d = rnd(64, 3); for (int i = 0; i < n; i++) { c.iv(rnd(8, i + 10 * p).data()); c.pkt(d.data(), 7 * p + i); } for (int i = 0; i < m; i++) c.block(); state(c.fp()); }
SCENARIO(longrun) { int p = choose(4, "packet size"); static const int P[] = {1 << 14, 4096, 6150, 999}; Cx c; c.key(dk().data(), 16); c.iv(rnd(8, 2).data()); auto m = rnd(P[p], 3); for (b64 o = 0; o < (C.thorough ? 1 << 26 : 1 << 23); o += P[p]) { c.pkt(m.data(), P[p]); state(c.fp()); } }
SCENARIO(keycarry) { int k = choose(C.thorough ? 40000 : 6000, "key"), iv = choose(2); Cx c; c.key(rnd(16, 5000 + k).data(), 16); if (iv) c.iv(rnd(8, k).data()); c.block(); c.block(); state(c.fp()); }
