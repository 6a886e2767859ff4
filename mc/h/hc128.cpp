// HC-128
#include "hc128.h"
#include "../ref/stream.h"
#include "../core.h"
#include "../gen.h"
using namespace mc;
enum { NK = 1, IVN = 16, BIGSZ = 2045, HD = 4, ID = 4, MD = 3, RP = 200, RS = 66000 };
static const int KL[] = {16};
struct Cx {
  St<hc128_state> st; ref::Hc128 r; bool keyed = false; std::vector<b8> k, v;
  Cx() { k = rnd(16, 71); v.assign(16, 7); }
  void init() { Arg a(k.data(), 16, IO.ain), b(v.data(), 16, IO.ain); CALL(hc128_initialize(st, a, b)); r.init(k.data(), v.data()); a.ck("key"); b.ck("IV"); st.ck("state"); }
  void key(const b8 *x, int) { k.assign(x, x + 16); keyed = true; init(); }
  void iv(const b8 *x) { v.assign(x, x + 16); init(); }
  bool ready() const { return keyed; }
  void pkt(const b8 *m, size_t n) {
    std::vector<b8> w(n + 1); r.pkt(w.data(), m, n);
    xform("HC-128 output", n, m, w.data(), [&](b8 *o, b8 *i) { CALL(hc128_process_packet(st, o, i, n)); });
    st.ck("state");
  }
  void raw(b8 *o, b8 *i, b64 n) { hc128_process_packet(st, o, i, n); }
  void refstart() {}
  void refpart(b8 *o, const b8 *in, b64 n, bool) { r.pkt(o, in, n); }
  b64 fp() const { return keyed ? hashb(r.P, 64, hashb(r.Q, 64, hashb(k.data(), 16, hashb(v.data(), 16, r.t)))) : 0; }
};
#include "stream.h"
// packet boundaries around every switch between the two tables
SCENARIO(boundary) {
  int b = choose(C.thorough ? 17 : 6, "table switch"), d = choose(17, "words before/after"), t = choose(4), n = choose(40, "next packet");
  int first = (512 * (b + 1) + d - 8) * 4 - t; Cx c; c.key(dk().data(), 16); c.iv(rnd(16, 2).data());
  auto m = rnd(first, 3); c.pkt(m.data(), first); c.pkt(m.data(), n); c.pkt(m.data(), 70); state(c.fp());
}
SCENARIO(longrun) { int p = choose(4, "packet size"); static const int P[] = {1 << 14, 4096, 6148, 999}; Cx c; c.key(dk().data(), 16); c.iv(rnd(16, 2).data()); auto m = rnd(P[p], 3); for (b64 o = 0; o < (C.thorough ? 1 << 24 : 1 << 22); o += P[p]) { c.pkt(m.data(), P[p]); state(c.fp()); } }
