// SHA-256, either copy (the runner chooses the directory).
#include "sha-256.h"
#include "../gen.h"
#include "../big.h"
#include "../ref/hash.h"
using namespace mc;
static void one(const b8 *m, size_t n, const char *what) {
  b8 want[32]; ref::sha256(want, m, n);
  Arg in(m, n, IO.ain); Buf out(32, IO.place ? 0 : IO.aout, 0xEE, IO.place);
  CALL(sha256_process_message(out.p, in, n));
  eq(what, out.p, want, 32); out.ck("digest"); in.ck("message");
  state(hashb(want, 32));
}
static const int LENS[] = {0, 1, 3, 4, 7, 8, 31, 55, 56, 57, 59, 60, 63, 64, 65, 111, 119, 120, 121, 127, 128, 129, 183, 184, 191, 192, 200, 256};
struct S : Sess {
  int who, cnt = 0; b64 h = 0;
  S(int w) : who(w) {}
  int nops() const override { return sizeof LENS / sizeof *LENS; }
  std::string nm(int k) const override { return "hash " + std::to_string(LENS[k]) + " bytes"; }
  void op(int k) override { auto m = rnd(LENS[k], 100 * who + k); one(m.data(), m.size(), "digest"); h = mix64(h, LENS[k] + 1); }
  b64 fp() const override { return h; }
};
static Sess *mk(int w) { return new S(w); }
// every length, several contents
SCENARIO(lengths) {
  int n = choose(C.thorough ? 12400 : 4300, "length"), c = choose(3, "content");
  std::vector<b8> m = c == 0 ? rnd(n, 1) : std::vector<b8>(n, c == 1 ? 0 : 0xff);
  one(m.data(), n, "digest");
}
// every value of every byte of short messages around the padding boundaries
SCENARIO(bytes) {
  static const int L[] = {1, 2, 4, 8, 32, 55, 56, 63, 64, 65, 119, 120, 127, 128};
  int v = choose(256, "value"), n = L[choose(C.thorough ? 14 : 10, "length")], bg = choose(2, "background");
  std::vector<b8> m(n, bg ? 0xff : 0);
  int pos = choose(n, "position"); m[pos] = v;
  one(m.data(), n, "digest");
}
// every pair of set bits in a one-block message
SCENARIO(bitpairs) {
  int i = choose(440, "bit"), j = choose(440, "bit");
  b8 m[55] = {0}; m[i / 8] ^= 1 << (i % 8); m[j / 8] ^= 1 << (j % 8);
  one(m, 55, "digest");
}
SCHED_SCENARIO
SCENARIO(history) { g_history(mk, C.thorough ? 4 : 3); }
SCENARIO(interleave) { g_interleave(mk, 3); }
SCENARIO(memory) { g_memory(mk, 2); }
SCENARIO(buffers) {
  IO.place = choose(3, "placement");
  if (IO.place == 0) { IO.ain = choose(9, "input alignment"); IO.aout = choose(9, "output alignment"); }
  int n = choose(C.thorough ? 600 : 260, "length"); auto m = rnd(n, 2);
  one(m.data(), n, "digest");
}
SCENARIO(repeat) { g_repeat(mk, C.thorough ? 3000 : 600, C.thorough ? 300000 : 66000); }
SCENARIO(related) { int n = (const int[]){8, 20, 64, 70, 130}[choose(5, "length")], r = choose(nrel(n), "relation"); Vec x = rnd(n, 6), y = x; relate(y, r); one(x.data(), n, "digest"); one(y.data(), n, "digest of a related message"); one(x.data(), n, "digest"); state(hashb(y.data(), n)); }
// pairs of lengths: what an earlier message leaves behind
SCENARIO(lenpairs) { int N = C.thorough ? 330 : 200, a = choose(N, "first length"), b = choose(N, "second length"); Vec x = rnd(N, 6), y = Vec(N, 0xff); one(y.data(), a, "digest"); one(x.data(), b, "digest"); }
static void big(b64 n) {
  BigIn in(n, 7); b8 want[32], got[32] = {0};
  Beside ref([&] { ref::sha256(want, in.p, n); });
  in_small_stack([&] { CALL(sha256_process_message(got, in.p, n)); });
  ref.join();
  eq("digest of a large message", got, want, 32); state(hashb(want, 32));
}
SCENARIO(large) {
  static const b64 base[] = {1 << 12, 1 << 16, 1 << 18, 1 << 20, 1 << 22, 1 << 23, 1 << 24, 1 << 25};
  int k = choose(C.thorough ? 8 : 7, "size"), d = choose(7, "offset");
  static const int D[] = {-64, -9, -8, -1, 0, 1, 55};
  big(base[k] + D[d]);
}
SCENARIO(huge) {
  static const b64 L[] = {(1ull << 29) - 9, (1ull << 29) + 3, (1ull << 31) + 1, (1ull << 32) + 61, (1ull << 29) - 8, (1ull << 29), (1ull << 31) - 1, (1ull << 31), (1ull << 32) - 1, (1ull << 32), (1ull << 33) + 5};
  big(L[choose(C.thorough ? 11 : 4, "size")]);
}
