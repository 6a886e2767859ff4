// Sosemanuk
#include "sosemanuk.h"
#include "../ref/stream.h"
#include "../core.h"
#undef M
#include "../gen.h"
using namespace mc;
enum { NK = 3, IVN = 16, BIGSZ = 1025, HD = 5, ID = 4, MD = 3, RP = 600, RS = 66000 };
static const int KL[] = {32, 16, 5};
struct Cx {
  St<sosemanuk_state> st; ref::Sosemanuk r; bool keyed = false, ived = false; std::vector<b8> k, v;
  void key(const b8 *x, int n) { Arg a(x, n, IO.ain); CALL(sosemanuk_load_key(st, a, n)); r.key(x, n); keyed = true; ived = false; k.assign(x, x + n); a.ck("key"); st.ck("state"); }
  void iv(const b8 *x) { Arg a(x, 16, IO.place ? 0 : IO.ain); CALL(sosemanuk_load_iv(st, a)); r.iv(x); ived = true; v.assign(x, x + 16); a.ck("IV"); st.ck("state"); }
  bool ready() const { return keyed && ived; }
  void refpart(b8 *o, const b8 *in, b64 n, bool last) {
    b64 i = 0; b8 w[16];
    for (; i + 16 <= n; i += 16) { r.blk(w); for (int j = 0; j < 16; j++) o[i + j] = in[i + j] ^ w[j]; }
    if (last) { r.blk(w); for (b64 j = i; j < n; j++) o[j] = in[j] ^ w[j - i]; }   // a packet always consumes floor(n/16)+1 blocks
  }
  void pkt(const b8 *m, size_t n) {
    std::vector<b8> w(n + 1); refpart(w.data(), m, n, true);
    xform("Sosemanuk output", n, m, w.data(), [&](b8 *o, b8 *i) { CALL(sosemanuk_process_packet(st, o, i, n)); });
    st.ck("state");
  }
  void raw(b8 *o, b8 *i, b64 n) { sosemanuk_process_packet(st, o, i, n); }
  void refstart() {}
  b64 fp() const { return !keyed ? 0 : hashb(k.data(), k.size(), ived ? hashb(v.data(), 16, hashb(r.s, 40, (b64)r.r1 << 32 | r.r2)) : 1); }
};
#include "stream.h"
SCENARIO(keylen) { // every key length, every value of its last byte
  int n = choose(33, "key length"), v = n ? choose(256, "last byte") : 0, iv = choose(3); auto k = rnd(n, 4); if (n) k[n - 1] = v; run1(k, iv ? rnd(16, 2 + iv) : std::vector<b8>(16, 0), rnd(50, 3));
}
SCENARIO(keylens) { int a = choose(33, "key length"), b = choose(33, "second key length"), c0 = choose(3); Cx c; auto k = c0 == 0 ? rnd(33, 4) : std::vector<b8>(33, c0 == 1 ? 0 : 0xff); c.key(k.data(), a); c.iv(rnd(16, 2).data()); c.pkt(k.data(), 20); c.key(k.data(), b); c.iv(rnd(16, 2).data()); c.pkt(k.data(), 33); state(c.fp()); }
SCENARIO(longrun) { int p = choose(4, "packet size"); static const int P[] = {1 << 14, 4096, 6148, 999}; Cx c; c.key(dk().data(), 32); c.iv(rnd(16, 2).data()); auto m = rnd(P[p], 3); for (b64 o = 0; o < (C.thorough ? 1 << 24 : 1 << 22); o += P[p]) { c.pkt(m.data(), P[p]); state(c.fp()); } }
