#include "md5.h"
#include "../gen.h"
#include "../big.h"
#include "../ref/hash.h"
using namespace mc;
static void upd(MD5_CTX *c, const b8 *m, size_t n) { Arg in(m, n, IO.ain); CALL(MD5Update(c, in, (unsigned)n)); in.ck("chunk"); }
static void fin(St<MD5_CTX> &c, const b8 *want) {
  Buf out(16, IO.place ? 0 : IO.aout, 0xEE, IO.place);
  CALL(MD5Final(out.p, c));
  eq("digest", out.p, want, 16); out.ck("digest"); c.ck("context");
  for (size_t i = 0; i < sizeof(MD5_CTX); i++) eqv("context byte after final (wiped)", c.b.p[i], 0);
}
static void whole(const b8 *m, size_t n) {   // one-shot
  b8 w[16]; ref::md5(w, m, n);
  St<MD5_CTX> c; Arg in(m, n, IO.ain); Buf out(16, IO.place ? 0 : IO.aout, 0xEE, IO.place);
  CALL(MD5_process_packet(c, out.p, in, n));
  eq("one-shot digest", out.p, w, 16); out.ck("digest"); in.ck("message"); c.ck("context");
}
static void chunks(const std::vector<b8> &m, const std::vector<int> &cut) {
  b8 w[16]; ref::md5(w, m.data(), m.size());
  St<MD5_CTX> c; CALL(MD5Init(c)); size_t o = 0;
  for (int k : cut) { upd(c, m.data() + o, k); o += k; state(mix64(o, k)); }
  if (o < m.size()) upd(c, m.data() + o, m.size() - o);
  fin(c, w);
}
static const int SZ[] = {0, 1, 8, 9, 55, 56, 63, 64, 65, 119, 120, 128, 200};
// incremental session; final allowed at any time, then init again
struct S : Sess {
  St<MD5_CTX> c; ref::Md5 r; bool on = false; int who, pos = 0; std::vector<b8> d;
  S(int w) : who(w), d(rnd(4096, 77 + w)) {}
  int nops() const override { return 3 + 13; }
  bool can(int k) const override { return k == 0 || k == 2 || on; }
  std::string nm(int k) const override { return k == 0 ? "init" : k == 1 ? "final" : k == 2 ? "one-shot" : "update " + std::to_string(SZ[k - 3]); }
  void op(int k) override {
    if (k == 0) { CALL(MD5Init(c)); r.init(); on = true; pos = 0; }
    else if (k == 1) { b8 w[16]; ref::Md5 t = r; t.final(w); fin(c, w); on = false; }
    else if (k == 2) { whole(d.data() + 7, 70); }
    else { int n = SZ[k - 3]; if (pos + n > 4096) pos = 0; upd(c, d.data() + pos, n); r.update(d.data() + pos, n); pos += n; }
    c.ck("context");
  }
  b64 fp() const override { return on ? mix64(r.len, hashb(r.h, 16)) : 1; }
};
static Sess *mk(int w) { return new S(w); }
SCENARIO(lengths) {
  int n = choose(C.thorough ? 9000 : 3000, "length"), c = choose(3, "content");
  auto m = c == 0 ? rnd(n, 1) : std::vector<b8>(n, c == 1 ? 0 : 0xff);
  whole(m.data(), n); chunks(m, {}); state(mix64(n, c));
}
SCENARIO(bytes) {
  int v = choose(256, "value"), n = (const int[]){1, 4, 55, 56, 64, 65}[choose(6, "length")], bg = choose(2, "background");
  std::vector<b8> m(n, bg ? 0xff : 0); m[choose(n, "position")] = v; whole(m.data(), n); state(hashb(m.data(), n));
}
// every division into two chunks
SCENARIO(split2) { int n = choose(C.thorough ? 520 : 260, "length"), a = choose(n + 1, "cut"); chunks(rnd(n, 3), {a}); }
// every division into three chunks
SCENARIO(split3) { int n = choose(C.thorough ? 200 : 140, "length"), a = choose(n + 1, "cut"), b = choose(n - a + 1, "cut"); chunks(rnd(n, 3), {a, b}); }
// every composition of messages from chunks of the boundary sizes
SCENARIO(compose) {
  static const int B[] = {0, 1, 7, 32, 56, 63, 64, 65, 127, 128, 129, 192};
  std::vector<int> cut; int o = 0;
  for (int d = 0; d < (C.thorough ? 5 : 4); d++) { int k = B[choose(12, "chunk")]; cut.push_back(k); o += k; }
  chunks(rnd(o, 3), cut);
}
SCENARIO(bytewise) { int n = choose(C.thorough ? 700 : 300, "length"), s = 1 + choose(C.thorough ? 130 : 70, "chunk size"); std::vector<int> c; for (int o = 0; o < n; o += s) c.push_back(n - o < s ? n - o : s); chunks(rnd(n, 3), c); }
SCHED_SCENARIO
SCENARIO(history) { g_history(mk, C.thorough ? 6 : 5); }
SCENARIO(interleave) { g_interleave(mk, C.thorough ? 5 : 4); }
SCENARIO(memory) { g_memory(mk, C.thorough ? 5 : 4); }
SCENARIO(buffers) { g_buffers(mk, C.thorough ? 4 : 3, false); }
SCENARIO(buflen) {
  IO.place = choose(3, "placement"); if (!IO.place) { IO.ain = choose(9); IO.aout = choose(9); }
  int n = choose(C.thorough ? 400 : 200, "length"); auto m = rnd(n, 4); whole(m.data(), n); chunks(m, {n / 3}); state(n);
}
SCENARIO(repeat) { g_repeat(mk, C.thorough ? 3000 : 600, C.thorough ? 300000 : 66000); }
SCENARIO(related) { int n = (const int[]){8, 20, 64, 70, 130}[choose(5, "length")], r = choose(nrel(n), "relation"); Vec x = rnd(n, 6), y = x; relate(y, r); whole(x.data(), n); whole(y.data(), n); chunks(x, {n / 2}); chunks(y, {n / 3, n / 3}); whole(x.data(), n); state(hashb(y.data(), n)); }
static void bigone(b64 n, b64 chunk) {
  BigIn in(n, 7); b8 w[16], got[16]; St<MD5_CTX> c; Beside ref([&] { ref::md5(w, in.p, n); });
  in_small_stack([&] {
    CALL(MD5Init(c));
    for (b64 o = 0; o < n; o += chunk) CALL(MD5Update(c, in.p + o, (unsigned)(n - o < chunk ? n - o : chunk)));
    CALL(MD5Final(got, c));
  });
  ref.join(); eq("digest of a large message", got, w, 16); state(mix64(n, chunk));
}
SCENARIO(large) {
  static const b64 base[] = {1 << 12, 1 << 16, 1 << 18, 1 << 20, 1 << 22, 1 << 24}; static const int D[] = {-64, -9, -1, 0, 1, 55};
  b64 n = base[choose(6, "size")]; n += D[choose(6, "offset")]; int c = choose(3, "chunk");
  bigone(n, c == 0 ? n : c == 1 ? 4097 : 65536);
}
SCENARIO(huge) {
  static const b64 L[] = {(1ull << 29) + 3, (1ull << 32) - 5, (1ull << 32) + 61, (1ull << 29) - 1, (1ull << 29), (1ull << 31) - 1, (1ull << 31) + 1, (1ull << 32) - 64};
  b64 n = L[choose(C.thorough ? 8 : 3, "size")]; int c = choose(C.thorough ? 2 : 1, "chunk");
  bigone(n, c ? 99999937 : n < (1ull << 32) ? n : (1ull << 31) + 7);
}
// long updates that start from a partially filled buffer
SCENARIO(hugepart) {
  static const b64 A[] = {1, 63}; static const b64 L[] = {(1ull << 32) - 1, (1ull << 32) - 63, (1ull << 32) - 64, (1ull << 31)};
  b64 a = A[choose(2, "first")], l = L[choose(C.thorough ? 4 : 2, "second")];
  BigIn in(a + l, 7); b8 w[16], got[16]; St<MD5_CTX> c; Beside ref([&] { ref::md5(w, in.p, a + l); });
  CALL(MD5Init(c)); CALL(MD5Update(c, in.p, (unsigned)a)); CALL(MD5Update(c, in.p + a, (unsigned)l)); CALL(MD5Final(got, c));
  ref.join(); eq("digest", got, w, 16); state(mix64(a, l));
}
