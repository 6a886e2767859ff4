#include "hmac.h"
#include "../gen.h"
#include "../big.h"
#include "../ref/hash.h"
using namespace mc;
struct H {
  St<hmac_state> st; std::vector<b8> key; bool keyed = false;
  void load(const std::vector<b8> &k) {
    Arg a(k.data(), k.size(), IO.ain);
    CALL(hmac_load_key(st, a, (int)k.size())); key = k; keyed = true; a.ck("key"); st.ck("state");
  }
  void want(b8 *o, const b8 *m, size_t n) { ref::hmac(o, key.data(), key.size(), m, n); }
  void tag(const b8 *m, size_t n, int tl) {
    b8 w[32]; want(w, m, n);
    Arg in(m, n, IO.ain); Buf out(tl, IO.place ? 0 : IO.aout, 0xEE, IO.place);
    CALL(hmac_tag_generation(st, out.p, in, n, tl));
    eq("tag", out.p, w, tl); out.ck("tag"); in.ck("message"); st.ck("state");
  }
  int val(const b8 *m, size_t n, const b8 *t, int tl) {
    Arg in(m, n, IO.ain), tg(t, tl, IO.aout);
    int r = CALL(hmac_tag_validation(st, tg, in, n, tl));
    tg.ck("tag"); in.ck("message"); st.ck("state");
    return r;
  }
  // verdict must be: equal to the real tag
  void check_val(const b8 *m, size_t n, const b8 *t, int tl) {
    b8 w[32]; want(w, m, n);
    bool ok = memcmp(w, t, tl) == 0;
    eqv(ok ? "verdict on the genuine tag (accept = 1)" : "verdict on a wrong tag (reject = 0)", val(m, n, t, tl) == 1, ok);
  }
};
static const int KL[] = {0, 1, 16, 32, 63, 64, 65, 128, 131};
struct S : Sess {
  H h; int who; b64 f = 0;
  S(int w) : who(w) {}
  int nops() const override { return 20; }
  bool can(int k) const override { return k < 5 || h.keyed; }
  std::string nm(int k) const override {
    static const char *n[] = {"load key of 20", "load key of 64", "load key of 100", "load empty key", "load key of 63"};
    return k < 5 ? n[k] : k < 13 ? "tag" : k < 17 ? "validate genuine" : "validate wrong";
  }
  void op(int k) override {
    static const int kl[] = {20, 64, 100, 0, 63}, ml[] = {0, 1, 55, 56, 63, 64, 65, 150}, tl[] = {32, 16, 1, 31, 12, 20, 32, 4};
    f = mix64(f, k + 1);
    if (k < 5) { h.load(rnd(kl[k], 1000 * who + k)); return; }
    k -= 5;
    auto m = rnd(ml[k % 8], 2000 * who + k);
    if (k < 8) h.tag(m.data(), m.size(), tl[k]);
    else {
      b8 t[32]; h.want(t, m.data(), m.size());
      if (k >= 12) t[k == 12 ? 0 : k == 13 ? 15 : 31] ^= k == 14 ? 0x80 : 1;
      h.check_val(m.data(), m.size(), t, k == 13 ? 16 : 32);
    }
  }
  b64 fp() const override { return f; }
};
static Sess *mk(int w) { return new S(w); }
SCENARIO(keylengths) {
  int n = choose(C.thorough ? 1100 : 420, "key length"), c = choose(3, "content"), ml = choose(4, "message");
  static const int L[] = {0, 8, 64, 100};
  H h; h.load(c == 0 ? rnd(n, 5) : std::vector<b8>(n, c == 1 ? 0 : 0xff));
  auto m = rnd(L[ml], 6); h.tag(m.data(), m.size(), 32); state(hashb(h.key.data(), n, ml + 8 * c));
}
SCENARIO(msglengths) {
  int n = choose(C.thorough ? 5000 : 1500, "message length"), c = choose(3, "content");
  H h; h.load(rnd(32, 5));
  auto m = c == 0 ? rnd(n, 6) : std::vector<b8>(n, c == 1 ? 0 : 0xff);
  h.tag(m.data(), n, 32); state(mix64(n, c));
}
SCENARIO(taglengths) {
  int tl = 1 + choose(32, "tag length"), n = choose(140, "message length"), kl = KL[choose(9, "key length")];
  H h; h.load(rnd(kl, 9)); auto m = rnd(n, 10); h.tag(m.data(), n, tl); state(mix64(tl * 1000 + n, kl));
}
SCENARIO(keybytes) {
  int v = choose(256, "value"), n = C.thorough ? (const int[]){16, 32, 64, 65, 100}[choose(5, "key length")] : (const int[]){32, 64, 65}[choose(3, "key length")];
  int pos = choose(n, "position"), bg = choose(2, "background");
  std::vector<b8> k(n, bg ? 0xff : 0); k[pos] = v;
  H h; h.load(k); h.tag((const b8 *)"abc", 3, 32); state(hashb(k.data(), n));
}
SCHED_SCENARIO
SCENARIO(history) { g_history(mk, C.thorough ? 5 : 4); }
SCENARIO(interleave) { g_interleave(mk, C.thorough ? 5 : 4); }
SCENARIO(memory) { g_memory(mk, C.thorough ? 4 : 3); }
SCENARIO(buffers) { g_buffers(mk, C.thorough ? 3 : 2, false); }
SCENARIO(buflen) {
  IO.place = choose(3, "placement"); if (!IO.place) { IO.ain = choose(5); IO.aout = choose(5); }
  int kl = KL[choose(9, "key length")], n = choose(200, "message length"), tl = (const int[]){1, 16, 31, 32}[choose(4, "tag length")];
  H h; h.load(rnd(kl, 9)); auto m = rnd(n, 10); h.tag(m.data(), n, tl); b8 t[32]; h.want(t, m.data(), n); h.check_val(m.data(), n, t, tl); state(kl * 1000 + n);
}
// ---- validation -----------------------------------------------------------
// all 1-byte tags and all 2-byte tags
SCENARIO(alltags) {
  int hi = choose(256, "first byte"), tl = 1 + choose(2, "tag length"), lo = tl == 2 ? choose(256, "second byte") : 0;
  int ml = (const int[]){0, 20}[choose(2, "message")];
  H h; h.load(rnd(32, 5)); auto m = rnd(ml, 6); b8 t[2] = {(b8)hi, (b8)lo};
  h.check_val(m.data(), ml, t, tl); state(hi * 256 + lo + tl * 65536);
}
// every change of one byte of the tag, for every tag length
SCENARIO(tagbytes) {
  int d = choose(256, "difference"), tl = 1 + choose(32, "tag length"), pos = choose(tl, "position"), ml = (const int[]){0, 33, 64}[choose(C.thorough ? 3 : 2, "message")];
  H h; h.load(rnd(32, 5)); auto m = rnd(ml, 6); b8 t[32]; h.want(t, m.data(), ml); t[pos] ^= d;
  h.check_val(m.data(), ml, t, tl); state(mix64(hashb(t, 32), tl));
}
// every pair of flipped tag bits (all distances: compensating differences)
SCENARIO(tagbitpairs) {
  int i = choose(256, "bit"), j = choose(256, "bit"), ml = (const int[]){0, 33}[choose(2, "message")];
  H h; h.load(rnd(32, 5)); auto m = rnd(ml, 6); b8 t[32]; h.want(t, m.data(), ml); t[i / 8] ^= 1 << (i % 8); t[j / 8] ^= 1 << (j % 8);
  h.check_val(m.data(), ml, t, 32); state(hashb(t, 32));
}
// the tag with two bytes swapped, shifted, reversed, or with the same change at two positions (differences that cancel)
SCENARIO(tagshapes) {
  int i = choose(32, "byte"), j = choose(32, "byte"), sh = choose(6, "shape"), tl = choose(2, "tag length") ? 16 : 32;
  H h; h.load(rnd(32, 5)); auto m = rnd(33, 6); b8 t[32], w[32]; h.want(w, m.data(), 33); memcpy(t, w, 32);
  if (sh == 0) std::swap(t[i], t[j]);
  if (sh == 1) { t[i] ^= 0xff; t[j] ^= 0xff; }
  if (sh == 2) { t[i]++; t[j]--; }
  if (sh == 3) for (int k = 0; k < 32; k++) t[k] = w[(k + i + j) % 32];
  if (sh == 4) for (int k = i; k < 32 && k <= i + j; k++) t[k] ^= 0x11;
  if (sh == 5) for (int k = 0; k < 32; k++) t[k] = k < i ? w[k] : (b8)j;
  h.check_val(m.data(), 33, t, tl); state(hashb(t, 32, tl));
}
// genuine tag with a changed message: every bit, every truncation, every extension
SCENARIO(msgtamper) {
  int n = (const int[]){1, 8, 31, 55, 64, 65, 130}[choose(7, "length")], kind = choose(3, "kind"), tl = (const int[]){4, 16, 32}[choose(3, "tag length")];
  H h; h.load(rnd(32, 5)); auto m = rnd(n, 6); b8 t[32]; h.want(t, m.data(), n);
  if (kind == 0) { int b = choose(n * 8, "bit"); m[b / 8] ^= 1 << (b % 8); }
  if (kind == 1) m.resize(choose(n, "kept"));
  if (kind == 2) { int e = 1 + choose(64, "added"), v = choose(3, "value"); m.resize(n + e, v == 0 ? 0 : v == 1 ? 0x80 : 0xff); }
  h.check_val(m.data(), m.size(), t, tl); state(hashb(m.data(), m.size(), tl));
}
// genuine tag under a changed key: every bit of it, and every other key length
SCENARIO(keytamper) {
  int kl = (const int[]){1, 16, 32, 63, 64, 65, 100}[choose(7, "key length")], kind = choose(2, "kind");
  auto k = rnd(kl, 5); H g; g.load(k); auto m = rnd(40, 6); b8 t[32]; g.want(t, m.data(), 40);
  if (kind == 0) { int b = choose(kl * 8, "bit"); k[b / 8] ^= 1 << (b % 8); }
  else { int n = choose(130, "new length"); auto k2 = rnd(n, 5); if (n < kl) k.resize(n); else k.resize(n, 0x33); }
  H h; h.load(k); h.check_val(m.data(), 40, t, 32); h.check_val(m.data(), 40, t, 8); state(hashb(k.data(), k.size()));
}
// histories of accepts and rejects
SCENARIO(verdicts) {
  H h; h.load(rnd(32, 5)); auto m = rnd(20, 6); b8 w[32]; h.want(w, m.data(), 20); b64 f = 0;
  for (int d = 0; d < (C.thorough ? 6 : 5); d++) {
    int k = choose(8, "presented"); b8 t[32]; memcpy(t, w, 32); int n = 20, tl = 32;
    if (k == 1) t[0] ^= 1; if (k == 2) t[31] ^= 0x80; if (k == 3) memset(t, 0, 32);
    if (k == 4) n = 19; if (k == 5) { t[16] ^= 4; tl = 16; } if (k == 6) tl = 16; if (k == 7) { memset(t, 0xff, 32); tl = 1; }
    h.check_val(m.data(), n, t, tl); f = mix64(f, k); state(f);
  }
}
struct RK {
  H h;
  void load(const Vec &k, const Vec &) { h.load(k); }
  void change(const Vec &k, const Vec &, int) { h.load(k); }
  void use(int n) { auto m = rnd(n, 3); h.tag(m.data(), n, 32); b8 t[32]; h.want(t, m.data(), n); h.check_val(m.data(), n, t, 32); t[n % 32] ^= 1 << n % 8; h.check_val(m.data(), n, t, 32); h.tag(m.data(), n, 12); }
};
SCENARIO(rekey) { g_rekey<RK>((const int[]){20, 32, 64, 100}[choose(C.thorough ? 4 : 3, "key length")], 0); }
SCENARIO(repeat) { g_repeat(mk, C.thorough ? 3000 : 600, C.thorough ? 300000 : 66000); }
// related messages in the same buffer
SCENARIO(related) {
  int n = (const int[]){8, 20, 64, 70, 130}[choose(5, "length")], r = choose(nrel(n), "relation"), tl = choose(2) ? 32 : 10; H h; h.load(rnd(32, 5)); Vec x = rnd(n, 6), y = x; relate(y, r); b8 t[32], u[32];
  h.tag(x.data(), n, tl); h.tag(y.data(), n, tl); h.tag(x.data(), n, tl); h.want(t, x.data(), n); h.want(u, y.data(), n);
  h.check_val(x.data(), n, t, tl); h.check_val(y.data(), n, t, tl); h.check_val(y.data(), n, u, tl); h.check_val(x.data(), n, u, tl); h.check_val(x.data(), n, t, tl); h.tag(y.data(), n, tl); state(hashb(y.data(), n));
}
// many messages, so that every tag byte takes every value; then a change of each byte in turn
SCENARIO(manytags) {
  int i = choose(C.thorough ? 60000 : 6000, "message"), tl = (const int[]){32, 16, 5}[choose(3, "tag length")]; H h; h.load(rnd(32, 5)); b8 m[4] = {(b8)i, (b8)(i >> 8), (b8)(i >> 16), 7}; b8 t[32]; h.want(t, m, 4); h.tag(m, 4, tl); h.check_val(m, 4, t, tl);
  for (int p = 0; p < tl; p++) { b8 x[32]; memcpy(x, t, 32); x[p] ^= (const b8[]){1, 0x80, 0xff, 0x20}[(i + p) & 3]; h.check_val(m, 4, x, tl); } state(hashb(t, 32));
}
static void big(b64 n, int tl) {
  BigIn in(n, 7); b8 got[32] = {0}, w[32]; H h; h.load(rnd(32, 5));
  Beside ref([&] { h.want(w, in.p, n); });
  in_small_stack([&] { CALL(hmac_tag_generation(h.st, got, in.p, n, tl)); });
  ref.join();
  eq("tag of a large message", got, w, tl); state(n);
}
SCENARIO(large) {
  static const b64 base[] = {1 << 12, 1 << 16, 1 << 18, 1 << 20, 1 << 22, 1 << 23, 1 << 24};
  static const int D[] = {-64, -9, -1, 0, 1, 55};
  b64 n = base[choose(C.thorough ? 7 : 6, "size")]; n += D[choose(6, "offset")]; big(n, 32);
}
// validation of large messages: genuine, and changed in the tag, in the first and last byte, in the length
SCENARIO(largeval) {
  static const int base[] = {1 << 12, 1 << 16, 1 << 18, 1 << 20, 1 << 22}; static const int D[] = {-64, -9, 0, 55};
  int n = base[choose(C.thorough ? 5 : 4, "size")]; n += D[choose(4, "offset")]; int kind = choose(8, "kind"), tl = (const int[]){32, 16, 1}[choose(kind == 0 || kind == 1 ? 3 : 1, "tag length")];
  H h; h.load(rnd(32, 5)); Vec m = rnd(n, 6); b8 t[32]; h.want(t, m.data(), n); h.check_val(m.data(), n, t, tl);
  if (kind == 1) t[tl - 1] ^= 1; if (kind == 2) m[0] ^= 1; if (kind == 3) m[n - 1] ^= 0x80; if (kind == 4) m.pop_back(); if (kind == 5) m.push_back(0); if (kind == 6) m[n / 2] ^= 4; if (kind == 7) m[65536 % n] ^= 1;
  in_small_stack([&] { h.check_val(m.data(), (int)m.size(), t, tl); }); state(mix64(n, kind));
}
SCENARIO(huge) {
  static const b64 L[] = {(1ull << 29) - 73, (1ull << 31) + 1, (1ull << 32) + 61, (1ull << 29) - 64, (1ull << 29), (1ull << 31) - 64, (1ull << 32) - 64, (1ull << 32)};
  big(L[choose(C.thorough ? 8 : 3, "size")], 32);
}
SCENARIO(largekey) {
  static const int base[] = {1 << 12, 1 << 16, 1 << 18, 1 << 20, 1 << 22, 1 << 23, 1 << 24};
  static const int D[] = {-64, -9, -1, 0, 1, 55};
  int n = base[choose(C.thorough ? 7 : 6, "size")]; n += D[choose(6, "offset")];
  auto k = rnd(n, 5); H h;
  in_small_stack([&] { CALL(hmac_load_key(h.st, k.data(), n)); });
  h.key = k; h.tag((const b8 *)"abc", 3, 32); state(n);
}
