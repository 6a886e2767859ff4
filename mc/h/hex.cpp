#include "encoder.h"
#include "../gen.h"
#include "../big.h"
using namespace mc;
static void enc(const b8 *m, int n) {
  static const char *D = "0123456789ABCDEF";
  std::string w; for (int i = 0; i < n; i++) { w += D[m[i] >> 4]; w += D[m[i] & 15]; }
  { Arg in(m, n, IO.ain); Buf out(2 * n + 1, IO.place ? 0 : IO.aout, 0xEE, IO.place); CALL(hex_encode((char *)out.p, in, n)); eq("encoded text with terminator", out.p, w.c_str(), 2 * n + 1); out.ck("text"); in.ck("bytes"); }
  { Arg in(w.data(), 2 * n, IO.ain); Buf out(n, IO.place ? 0 : IO.aout, 0xEE, IO.place); CALL(hex_decode(out.p, (const char *)(b8 *)in, 2 * n)); eq("decoded bytes", out.p, m, n); out.ck("bytes"); in.ck("text"); }
  state(hashb(m, n));
}
static const int LN[] = {0, 1, 2, 3, 16, 33};
struct S : Sess {
  int who; b64 h = 0; S(int w) : who(w) {}
  int nops() const override { return 6; }
  std::string nm(int k) const override { return "encode+decode " + std::to_string(LN[k]); }
  void op(int k) override { auto v = rnd(LN[k], 10 * who + k); enc(v.data(), LN[k]); h = mix64(h, k); }
  b64 fp() const override { return h; }
};
static Sess *mk(int w) { return new S(w); }
SCENARIO(pairs) { int a = choose(256, "byte"), b = choose(256, "byte"); b8 m[2] = {(b8)a, (b8)b}; enc(m, 2); enc(m, 1); }
SCENARIO(triples) { int a = choose(256, "byte"), x = choose(16), y = choose(16); b8 m[3] = {(b8)(x * 17), (b8)a, (b8)(y * 16 + 15 - y)}; enc(m, 3); }
SCENARIO(positions) { int v = choose(256, "value"), n = (const int[]){1, 2, 7, 8, 15, 16, 17, 32, 33, 64}[choose(10, "length")], bg = choose(2); std::vector<b8> m(n, bg ? 0xff : 0); m[choose(n, "position")] = v; enc(m.data(), n); }
SCENARIO(lengths) { int n = choose(C.thorough ? 10000 : 4200, "length"), c = choose(3); auto m = c == 0 ? rnd(n, 1) : std::vector<b8>(n, c == 1 ? 0 : 0xff); enc(m.data(), n); }
SCHED_SCENARIO
SCENARIO(history) { g_history(mk, C.thorough ? 7 : 6); }
SCENARIO(interleave) { g_interleave(mk, 5); }
SCENARIO(memory) { g_memory(mk, 4); }
SCENARIO(buffers) { g_buffers(mk, 3, false); }
SCENARIO(buflen) { IO.place = choose(3); if (!IO.place) { IO.ain = choose(9); IO.aout = choose(9); } int n = choose(120, "length"); auto m = rnd(n, 4); enc(m.data(), n); }
SCENARIO(repeat) { g_repeat(mk, C.thorough ? 3000 : 600, C.thorough ? 300000 : 66000); }
SCENARIO(related) { int n = (const int[]){8, 20, 64, 70, 130}[choose(5, "length")], r = choose(nrel(n), "relation"); Vec x = rnd(n, 6), y = x; relate(y, r); enc(x.data(), n); enc(y.data(), n); enc(x.data(), n); }
SCENARIO(large) { static const int B[] = {1 << 15, 1 << 16, 1 << 20, 1 << 24, 1 << 25}; int n = B[choose(C.thorough ? 5 : 4, "size")] + choose(3) - 1; auto m = rnd(n, 5); enc(m.data(), n); }
// a text longer than 2^31 characters
SCENARIO(gigahex) {
  static const char *D = "0123456789ABCDEF"; const b64 n = (1ull << 30) + 3, part = 1 << 20; BigIn in(n, 5); std::vector<char> w(2 * part);
  BigOut tx(2 * n + 1); in_small_stack([&] { CALL(hex_encode((char *)tx.p, in.p, (int)n)); });
  for (b64 o = 0; o < n; o += part) { b64 k = n - o < part ? n - o : part; for (b64 i = 0; i < k; i++) { w[2 * i] = D[in.p[o + i] >> 4]; w[2 * i + 1] = D[in.p[o + i] & 15]; } if (memcmp(tx.p + 2 * o, w.data(), 2 * k)) fail("encoded text differs in the megabyte that starts at byte %llu", (unsigned long long)o); state(o); }
  if (tx.p[2 * n]) fail("the text is not terminated");
  const b64 d = (1ull << 30) - 1; BigOut back(d); in_small_stack([&] { CALL(hex_decode(back.p, (const char *)tx.p, (int)(2 * d))); });
  for (b64 o = 0; o < d; o += part) { b64 k = d - o < part ? d - o : part; if (memcmp(back.p + o, in.p + o, k)) fail("decoded bytes differ in the megabyte that starts at byte %llu", (unsigned long long)o); }
}
