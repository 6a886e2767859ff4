// DES: ECB and CTR.  Key bytes, block words: see key64()/blk.
#include <cstdint>
#include "des.h"
#include "../gen.h"
#include "../big.h"
#include "../ref/des.h"
using namespace mc;
struct Cx {
  St<des_state> st; ref::Des r; b64 k = 0; bool keyed = false, dec = false;
  void key(b64 kk, bool d) {
    b32 w[2] = {(b32)(kk >> 32), (b32)kk}; Arg a(w, 8, IO.ain & ~3);
    if (d) CALL(des_key_schedule_decrypt(st, a)); else CALL(des_key_schedule_encrypt(st, a));
    if (!keyed || k != kk) r.key(kk); k = kk; keyed = true; dec = d; a.ck("key"); st.ck("state");
  }
  b64 f(b64 v) const { return r.crypt(v, dec); }
  void blk(b64 v) {
    b32 in[2] = {(b32)(v >> 32), (b32)v}; b64 e = f(v); b32 w[2] = {(b32)(e >> 32), (b32)e};
    Arg a(in, 8, IO.ain & ~3); Buf o(8, IO.place ? 0 : IO.aout & ~3, 0xEE, IO.place);
    CALL(des_ecb_block(st, (u32 *)o.p, (u32 *)(b8 *)a)); o.ck("output"); a.ck("input"); st.ck("state"); eq("DES block", o.p, w, 8);
  }
  void ecbref(b32 *w, const b32 *m, size_t n) { for (size_t i = 0; i < n; i++) { b64 e = f((b64)m[2 * i] << 32 | m[2 * i + 1]); w[2 * i] = e >> 32; w[2 * i + 1] = (b32)e; } }
  void ctrref(b32 *w, const b32 *m, b64 c, size_t n) { for (size_t i = 0; i < n; i++) { b64 e = f(c++); w[2 * i] = m[2 * i] ^ (b32)(e >> 32); w[2 * i + 1] = m[2 * i + 1] ^ (b32)e; } }
  void ecb(const b8 *mm, size_t n) {   // n blocks
    std::vector<b32> m(2 * n + 1), w(2 * n + 1); memcpy(m.data(), mm, 8 * n); ecbref(w.data(), m.data(), n);
    xform("DES-ECB output", 8 * n, (b8 *)m.data(), (b8 *)w.data(), [&](b8 *o, b8 *i) { CALL(des_process_packet_ecb(st, (u32 *)o, (u32 *)i, 8 * n)); });
    st.ck("state");
  }
  void ctr(b64 c, const b8 *mm, size_t n) {
    std::vector<b32> m(2 * n + 1), w(2 * n + 1); memcpy(m.data(), mm, 8 * n); ctrref(w.data(), m.data(), c, n);
    b32 nn[3] = {(b32)(c >> 32), (b32)c, 0}; Arg a(nn, 12, IO.ain & ~3);
    xform("DES-CTR output", 8 * n, (b8 *)m.data(), (b8 *)w.data(), [&](b8 *o, b8 *i) { CALL(des_process_packet_ctr(st, (u32 *)o, (u32 *)i, (u32 *)(b8 *)a, 8 * n)); });
    a.ck("nonce"); st.ck("state");
  }
  b64 fp() const { return keyed ? mix64(k, dec + 1) : 0; }
};
struct Aligned { int a = IO.ain, b = IO.aout; Aligned() { IO.ain &= ~3; IO.aout &= ~3; } ~Aligned() { IO.ain = a; IO.aout = b; } };
static const int NB[] = {1, 0, 2, 3, 4, 7, 8, 9, 16, 33};
static int mode;  // 0 ecb, 1 ctr, 2 both
struct S : Sess {
  Cx c; int who; b64 last = 0;
  S(int w) : who(w) {}
  int nops() const override { return mode == 2 ? 14 : C.thorough ? 15 : 11; }
  bool can(int k) const override { return k < 4 || c.keyed; }
  std::string nm(int k) const override { return k < 4 ? (k < 2 ? "encrypt key " : "decrypt key ") + std::to_string(k & 1) : "packet " + std::to_string(k - 4); }
  void op(int k) override {
    Aligned al;
    if (k < 4) { c.key((k & 1) ? 0x0123456789abcdefull + who : mix64(who, 5), k > 1); return; }
    int j = k - 4; bool ctr = mode == 1 || (mode == 2 && j >= 5); if (mode == 2 && j >= 5) j -= 5;
    if (mode == 0 && j == 10) { c.blk(mix64(who, k)); last = k; return; }
    int n = NB[j % 10]; auto m = rnd(8 * n, 20 * who + k);
    if (ctr) c.ctr(k & 1 ? ~0ull - 1 : mix64(k, who), m.data(), n); else c.ecb(m.data(), n);
    last = k;
  }
  b64 fp() const override { return mix64(c.fp(), last); }
};
static Sess *mk(int w) { return new S(w); }
static void blk1(b64 k, b64 v) { Cx c; c.key(k, false); c.blk(v); b64 e = c.f(v); c.key(k, true); c.blk(e); eqv("decryption of the encryption", c.f(e), v); c.blk(v); state(mix64(k, v)); }
#ifdef MC_SCHED
SCENARIO(sched) { mode = 2; g_sched(mk); }
#endif
SCENARIO(history) { mode = choose(2); g_history(mk, C.thorough ? 5 : 4); }
SCENARIO(interleave) { mode = 2; g_interleave(mk, C.thorough ? 5 : 4); }
SCENARIO(memory) { mode = 2; g_memory(mk, 3); }
SCENARIO(buffers) { mode = 2; g_buffers(mk, 3, false); }
SCENARIO(buflen) { IO.place = choose(3); if (!IO.place) { IO.ain = 4 * choose(3); IO.aout = 4 * choose(3); } int md = choose(2), n = choose(20, "blocks"); Cx c; c.key(mix64(1, 2), choose(2)); auto m = rnd(8 * n, 3); if (md) c.ctr(77, m.data(), n); else c.ecb(m.data(), n); state(mix64(n, md)); }
// ---- block cipher
SCENARIO(keybits) { int i = choose(65), j = choose(65), b = choose(2); b64 k = b ? ~0ull : 0; if (i < 64) k ^= 1ull << i; if (j < 64) k ^= 1ull << j; blk1(k, 0); }
SCENARIO(blockbits) { int i = choose(65), j = choose(65), b = choose(2); b64 v = b ? ~0ull : 0; if (i < 64) v ^= 1ull << i; if (j < 64) v ^= 1ull << j; blk1(0x0101010101010101ull, v); }
SCENARIO(cross) { int i = choose(64), j = choose(64), k = choose(4); blk1(mix64(k, 1) ^ 1ull << i, mix64(k, 2) ^ 1ull << j); }
SCENARIO(keybytes) { int v = choose(256), p = choose(8), bg = choose(3); b64 k = bg == 2 ? 0x133457799bbcdff1ull : bg ? ~0ull : 0; k = (k & ~(0xffull << 8 * p)) | (b64)v << 8 * p; blk1(k, 0x0123456789abcdefull); }
SCENARIO(blockbytes) { int v = choose(256), p = choose(8), bg = choose(3); b64 k = bg == 2 ? 0x133457799bbcdff1ull : bg ? ~0ull : 0; k = (k & ~(0xffull << 8 * p)) | (b64)v << 8 * p; blk1(0x0123456789abcdefull, k); }
SCENARIO(parity) { int k = choose(64), m = choose(256, "parity bits"); b64 kk = mix64(k, 9), p = 0; for (int i = 0; i < 8; i++) if (m >> i & 1) p |= 1ull << 8 * i; Cx c; c.key(kk & 0xfefefefefefefefeull, false); b64 x = c.f(k); Cx d; d.key((kk & 0xfefefefefefefefeull) | p, false); d.blk(k); eqv("parity", d.f(k), x); d.key((kk & 0xfefefefefefefefeull) | p, true); d.blk(x); state(mix64(k, m)); }
SCENARIO(weak) { static const b64 W[] = {0x0101010101010101ull, 0xfefefefefefefefeull, 0xe0e0e0e0f1f1f1f1ull, 0x1f1f1f1f0e0e0e0eull, 0x011f011f010e010eull, 0x1f011f010e010e01ull, 0x01e001e001f101f1ull, 0xe001e001f101f101ull, 0x01fe01fe01fe01feull, 0xfe01fe01fe01fe01ull, 0x1fe01fe00ef10ef1ull, 0xe01fe01ff10ef10eull, 0x1ffe1ffe0efe0efeull, 0xfe1ffe1ffe0efe0eull, 0xe0fee0fef1fef1feull, 0xfee0fee0fef1fef1ull}; int w = choose(16), v = choose(260); blk1(W[w], v < 256 ? v * 0x0101010101010101ull : mix64(v, 1)); }
SCENARIO(grid) { int a = choose(C.thorough ? 500 : 200, "key"), b = choose(C.thorough ? 500 : 200, "block"); blk1(mix64(a, 100), mix64(b, 200)); }
SCENARIO(compl_) { int a = choose(100), b = choose(100); b64 k = mix64(a, 100), v = mix64(b, 300); Cx c, d; c.key(k, false); d.key(~k, false); c.blk(v); d.blk(~v); eqv("complementation", d.f(~v), ~c.f(v)); state(mix64(k, v)); }
SCENARIO(lengths) { int n = choose(C.thorough ? 1100 : 530, "blocks"), d = choose(2); Cx c; c.key(mix64(3, 4), d); c.ecb(rnd(8 * n, 3).data(), n); state(mix64(n, d)); }
SCENARIO(posbytes) { int n = 1 + choose(8, "blocks"), p = choose(n * 8, "position"), v = choose(256); std::vector<b8> m(8 * n, 0); m[p] = v; Cx c; c.key(mix64(3, 4), false); c.ecb(m.data(), n); state(mix64(n, p * 256 + v)); }
// ---- counter mode
SCENARIO(ctrlengths) { int n = choose(C.thorough ? 1100 : 530, "blocks"), d = choose(2), o = choose(3); static const b64 N0[] = {0, 0x00000000fffffff0ull, 0xfffffffffffffff0ull}; Cx c; c.key(mix64(3, 4), d); c.ctr(N0[o], rnd(8 * n, 3).data(), n); state(mix64(n, d * 3 + o)); }
SCENARIO(ctrcarry) { int e = choose(65), d = choose(9), n = choose(12), k = choose(2); b64 x = (e == 64 ? 0 : 1ull << e) + d - 6; Cx c; c.key(mix64(3, k), false); auto m = rnd(8 * n, 3); c.ctr(x, m.data(), n); c.ctr(x, m.data(), n); state(mix64(x, n)); }
SCENARIO(ctrnonce) { int i = choose(65), j = choose(65), n = 1 + choose(3); b64 x = 0; if (i < 64) x ^= 1ull << i; if (j < 64) x ^= 1ull << j; Cx c; c.key(mix64(3, 4), false); c.ctr(x, rnd(24, 3).data(), n); state(x); }
SCENARIO(ctrround) { // the same call decrypts; interleaved packets with other nonces do not matter
  int n = choose(20, "blocks"), a = choose(4), b = choose(20, "blocks between"); Cx c; c.key(mix64(3, a), false); auto m = rnd(8 * n, 3); std::vector<b32> mm(2 * n + 1), w(2 * n + 1); memcpy(mm.data(), m.data(), 8 * n);
  b64 x = mix64(a, 9); c.ctrref(w.data(), mm.data(), x, n); c.ctr(x, m.data(), n); c.ctr(x + 5, rnd(8 * b, 4).data(), b); c.ctr(x, (b8 *)w.data(), n); std::vector<b32> back(2 * n + 1); c.ctrref(back.data(), w.data(), x, n); eq("round trip", back.data(), mm.data(), 8 * n); state(mix64(n, a * 20 + b));
}
SCENARIO(ctrdistinct) { // no counter block value occurs twice within a packet (the keystream of a permutation is repetition-free)
  int e = choose(C.thorough ? 6 : 4, "size"), o = choose(5, "nonce"); static const b64 N0[] = {0, 0xffffff00ull, 0xffffffffffffff80ull, 0x7fffffff80000000ull, 0x0123456789abcdefull}; static const int L[] = {300, 5000, 66000, 70000, 300000, 1200000};
  int n = L[e]; Cx c; c.key(mix64(8, 4), false); std::vector<b32> z(2 * n, 0), w(2 * n); b32 nn[3] = {(b32)(N0[o] >> 32), (b32)N0[o], 0};
  CALL(des_process_packet_ctr(c.st, w.data(), z.data(), nn, 8ull * n)); FpSet s; for (int i = 0; i < n; i++) { b64 v = (b64)w[2 * i] << 32 | w[2 * i + 1]; if (!s.insert(v)) fail("keystream block %d of a %d-block packet repeats an earlier one", i, n); } state(mix64(n, o));
  std::vector<b32> x(128); for (int i = 0; i + 64 <= n; i += 7777) { c.ctrref(x.data(), z.data(), N0[o] + i, 64); eq("DES-CTR window", w.data() + 2 * i, x.data(), 512); }
}
struct RK {
  Cx c; b64 iv = 0; static int d;
  static b64 w(const Vec &k) { b64 x = 0; for (b8 b : k) x = x << 8 | b; return x; }
  void load(const Vec &k, const Vec &v) { c.key(w(k), d); iv = w(v); }
  void change(const Vec &k, const Vec &v, int i) { if (!i) c.key(w(k), !c.dec); iv = w(v); }
  void use(int n) { c.ecb(rnd(8 * (n / 8), 3).data(), n / 8); c.ctr(iv, rnd(8 * (n / 8), 4).data(), n / 8); c.blk(n); }
};
int RK::d;
SCENARIO(rekey) { RK::d = choose(2, "direction"); g_rekey<RK>(8, 8); }
SCENARIO(repeat) { mode = choose(2); g_repeat(mk, C.thorough ? 3000 : 600, C.thorough ? 300000 : 66000); }
SCENARIO(large) {
  static const b64 B[] = {1 << 12, 1 << 16, 1 << 20, 1 << 22, 1 << 24}; b64 n = B[choose(C.thorough ? 5 : 4, "size")] / 8 + choose(3) - 1; int md = choose(2);
  Cx c; c.key(mix64(3, 4), false); std::vector<b32> m(2 * n), o(2 * n); auto d = rnd(8 * n, 3); memcpy(m.data(), d.data(), 8 * n); b32 nn[3] = {1, 0xffffff00u, 0};
  in_small_stack([&] { if (md) CALL(des_process_packet_ctr(c.st, o.data(), m.data(), nn, 8 * n)); else CALL(des_process_packet_ecb(c.st, o.data(), m.data(), 8 * n)); });
  std::vector<b32> w(2 * 64); for (b64 i = 0; i < n;) { b64 k = n - i < 64 ? n - i : 64; if (md) c.ctrref(w.data(), m.data() + 2 * i, 0x1ffffff00ull + i, k); else c.ecbref(w.data(), m.data() + 2 * i, k); eq("large packet window", o.data() + 2 * i, w.data(), 8 * k); i += n < 20000 || i + 8192 >= n ? 64 : 4096; } state(mix64(n, md));
}
SCENARIO(huge) { // 2^29 blocks would take minutes; 2^27+ bytes (thorough 2^29+) in one packet
  int md = choose(2); b64 n = ((1ull << (C.thorough ? 29 : 27)) + 40) / 8; Cx c; c.key(mix64(3, 4), false); BigIn in(8 * n, 5); BigOut o(8 * n); b32 nn[3] = {1, 0xffffff00u, 0};
  in_small_stack([&] { if (md) CALL(des_process_packet_ctr(c.st, (u32 *)o.p, (u32 *)in.p, nn, 8 * n)); else CALL(des_process_packet_ecb(c.st, (u32 *)o.p, (u32 *)in.p, 8 * n)); });
  std::vector<b32> w(128); for (b64 i = 0; i < n;) { b64 k = n - i < 64 ? n - i : 64; const b32 *ip = (const b32 *)in.p + 2 * i; if (md) c.ctrref(w.data(), ip, 0x1ffffff00ull + i, k); else c.ecbref(w.data(), ip, k); eq("huge packet window", (b32 *)o.p + 2 * i, w.data(), 8 * k); i += i + 70000 >= n ? 64 : 65536 - 64 * (i & 64 ? 1 : 0); } state(mix64(n, md));
}
