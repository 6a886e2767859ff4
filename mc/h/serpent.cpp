// Serpent component (rounds 12/18/24 outputs), either copy.
#include "serpent.h"
#undef ROTL_32
#include "../gen.h"
#include "../ref/stream.h"
using namespace mc;
struct Cx {
  St<serpent_state> st; ref::Serpent r; bool keyed = false; std::vector<b8> k;
  void key(const b8 *x, int n) { Arg a(x, n, IO.ain); CALL(serpent_key_schedule(st, a, n)); r.key(x, n); keyed = true; k.assign(x, x + n); a.ck("key"); st.ck("state"); }
  void blk(const b8 *x) {
    b32 in[4], w[12]; for (int i = 0; i < 4; i++) in[i] = ref::le32(x + 4 * i);
    r.enc24(in, w, w + 4, w + 8);
    Arg a(in, 16, IO.ain & ~3); Buf o(48, IO.place ? 0 : IO.aout & ~3, 0xEE, IO.place);
    CALL(serpent_process_packet(st, (uint32_t *)o.p, (uint32_t *)(b8 *)a, 16));
    o.ck("output"); a.ck("input"); st.ck("state"); eq("Serpent words after 12, 18 and 24 rounds", o.p, w, 48);
  }
  b64 fp() const { return keyed ? hashb(k.data(), k.size(), 5) : 0; }
};
static const int KL[] = {32, 0, 1, 16, 31};
struct S : Sess {
  Cx c; int who; b64 last = 0;
  S(int w) : who(w) {}
  int nops() const override { return C.thorough ? 16 : 10; }
  bool can(int k) const override { return k < 5 || c.keyed; }
  std::string nm(int k) const override { return k < 5 ? "key of " + std::to_string(KL[k]) : "block " + std::to_string(k - 5); }
  void op(int k) override {
    if (k < 5) { c.key(rnd(32, 40 + 9 * who + k).data(), KL[k]); return; }
    std::vector<b8> v = k == 5 ? std::vector<b8>(16, 0) : k == 6 ? std::vector<b8>(16, 0xff) : rnd(16, 70 + k + 20 * who);
    c.blk(v.data()); last = hashb(v.data(), 16);
  }
  b64 fp() const override { return mix64(c.fp(), last); }
};
static Sess *mk(int w) { return new S(w); }
static void run1(const std::vector<b8> &k, const std::vector<b8> &v) { Cx c; c.key(k.data(), k.size()); c.blk(v.data()); state(mix64(c.fp(), hashb(v.data(), 16))); }
SCHED_SCENARIO
SCENARIO(history) { g_history(mk, 5); }
SCENARIO(interleave) { g_interleave(mk, C.thorough ? 5 : 4); }
SCENARIO(memory) { g_memory(mk, 3); }
SCENARIO(buffers) { g_buffers(mk, 3, false); }
SCENARIO(buflen) { IO.place = choose(3); if (!IO.place) { IO.ain = choose(32); IO.aout = choose(9); } int n = choose(33, "key length"); Cx c; c.key(rnd(32, 1).data(), n); c.blk(rnd(16, 3).data()); state(c.fp()); }
SCENARIO(keylen) { int n = choose(33, "key length"), v = n ? choose(256, "last byte") : 0, b = choose(3); auto k = rnd(n, 4); if (n) k[n - 1] = v; run1(k, b ? rnd(16, 2 + b) : std::vector<b8>(16, 0)); }
SCENARIO(keylens) { int a = choose(33), b = choose(33), c0 = choose(3); Cx c; auto k = c0 == 0 ? rnd(33, 4) : std::vector<b8>(33, c0 == 1 ? 0 : 0xff); c.key(k.data(), a); c.blk(k.data()); c.key(k.data(), b); c.blk(k.data() + 3); state(c.fp()); }
SCENARIO(keybits) { int n = choose(33, "key length"), i = choose(n ? n * 8 : 1, "bit"), j = choose(C.thorough ? (n ? n * 8 : 1) : 1, "bit"); std::vector<b8> k(n, 0); if (n) { k[i / 8] ^= 1 << i % 8; if (C.thorough) k[j / 8] ^= 1 << j % 8; } run1(k, std::vector<b8>(16, 0)); }
SCENARIO(keybytes) { int v = choose(256), p = choose(32, "position"), bg = choose(3); auto k = bg == 2 ? rnd(32, 8) : std::vector<b8>(32, bg ? 0xff : 0); k[p] = v; run1(k, rnd(16, 2)); }
SCENARIO(blockbytes) { int v = choose(256), p = choose(16, "position"), bg = choose(3); auto k = bg == 2 ? rnd(16, 8) : std::vector<b8>(16, bg ? 0xff : 0); k[p] = v; run1(rnd(32, 1), k); }
SCENARIO(blockbits) { int i = choose(128), j = choose(128); std::vector<b8> v(16, 0); v[i / 8] ^= 1 << i % 8; v[j / 8] ^= 1 << j % 8; run1(rnd(32, 1), v); }
// the four-bit columns entering round 0 take all 16 values in every one of the 32 columns
SCENARIO(columns) { int c = choose(32, "column"), v = choose(16, "value"), d = choose(32, "column"), w = choose(16, "value"); b32 x[4] = {0, 0, 0, 0}; for (int i = 0; i < 4; i++) x[i] |= (b32)(v >> i & 1) << c; for (int i = 0; i < 4; i++) x[i] |= (b32)(w >> i & 1) << d; std::vector<b8> b(16); memcpy(b.data(), x, 16); run1(rnd(32, 1), b); }
SCENARIO(grid) { int a = choose(C.thorough ? 400 : 150, "key"), b = choose(C.thorough ? 400 : 150, "block"); run1(rnd(32, 3000 + a), rnd(16, 9000 + b)); }
struct RK {
  Cx c; static int n;
  void load(const Vec &k, const Vec &) { c.key(k.data(), n); }
  void change(const Vec &k, const Vec &v, int) { load(k, v); }
  void use(int u) { c.blk(rnd(16, u).data()); c.blk(rnd(16, 3).data()); }
};
int RK::n;
SCENARIO(rekey) { RK::n = (const int[]){32, 16, 31, 5}[choose(4, "key length")]; g_rekey<RK>(RK::n, 0); }
SCENARIO(repeat) { g_repeat(mk, C.thorough ? 3000 : 600, C.thorough ? 300000 : 66000); }
