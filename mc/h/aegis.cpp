// AEGIS-128, one of the three directories.
#include "aegis_128.h"
#include "../gen.h"
#include "../big.h"
#include "../ref/aes.h"
using namespace mc;
#ifdef SLOW
#define Z(fast, slow) (slow)
#else
#define Z(fast, slow) (fast)
#endif
typedef std::vector<b8> V;
struct Ag {
  St<aegis_state> st; b8 k[16]; bool on = false;
  void key(const b8 *key) { Arg a(key, 16, IO.ain); CALL(aegis_load_key(st, a)); memcpy(k, key, 16); on = true; a.ck("key"); st.ck("state"); }
  void enc(const V &iv, const V &ad, const V &m, V &ct, V &tag) {
    V wc(m.size() + 1), wt(16); ref::Aegis128::enc(k, iv.data(), ad.data(), ad.size(), m.data(), m.size(), wc.data(), wt.data());
    Arg ai(iv.data(), 16, IO.ain), aa(ad.data(), ad.size(), IO.ain), am(m.data(), m.size(), IO.ain);
    Buf oc(m.size(), IO.place ? 0 : IO.aout, 0xEE, IO.place), ot(16, IO.place ? 0 : IO.aout, 0xEE, IO.place);
    CALL(aegis_encrypt_packet(st, oc.p, ot.p, am, aa, ai, ad.size(), m.size()));
    eq("AEGIS ciphertext", oc.p, wc.data(), m.size()); eq("AEGIS tag", ot.p, wt.data(), 16);
    oc.ck("ciphertext"); ot.ck("tag"); ai.ck("IV"); aa.ck("associated data"); am.ck("message"); st.ck("state");
    wc.resize(m.size()); ct = wc; tag = wt;
  }
  // returns the verdict; checks verdict and plaintext against the model
  bool dec(const V &iv, const V &ad, const V &ct, const V &tag) {
    V wp(ct.size() + 1); bool ok = ref::Aegis128::dec(k, iv.data(), ad.data(), ad.size(), ct.data(), ct.size(), tag.data(), wp.data());
    Arg ai(iv.data(), 16, IO.ain), aa(ad.data(), ad.size(), IO.ain), ac(ct.data(), ct.size(), IO.ain);
    Buf op(ct.size(), IO.place ? 0 : IO.aout, 0xEE, IO.place), tg(16, IO.place ? 0 : IO.ain, 0xCC, IO.place); tg.set(tag.data()); tg.freeze();
    int r = CALL(aegis_decrypt_packet(st, op.p, ac, aa, ai, tg.p, ad.size(), ct.size()));
    eqv(ok ? "verdict on a genuine packet (accept = 1)" : "verdict on a modified packet (reject = 0)", r == 1, ok);
    eqv("verdict value", r, ok);
    eq(ok ? "AEGIS plaintext" : "released plaintext of a rejected packet (must be zero)", op.p, wp.data(), ct.size());
    op.ck("plaintext"); ai.ck("IV"); aa.ck("associated data"); ac.ck("ciphertext"); tg.ck("tag"); if (ok) tg.ckfrozen("tag"); st.ck("state");
    return ok;
  }
};
struct PK { int a, m; };
static const PK P[] = {{0, 0}, {16, 16}, {0, 5}, {5, 0}, {3, 33}, {17, 1}, {32, 64}, {20, 31}, {1, 15}, {15, 17}};
static int npk() { return C.thorough ? 10 : 7; }
struct S : Sess {
  Ag g; int who; b64 f = 0;
  S(int w) : who(w) {}
  int nops() const override { return 2 + 3 * npk() + 1; }
  bool can(int k) const override { return k < 2 || g.on; }
  std::string nm(int k) const override { if (k < 2) return "load key"; if (k == nops() - 1) return "decrypt garbage"; auto p = P[(k - 2) / 3]; return std::string((const char *[]){"encrypt", "decrypt genuine", "decrypt forged"}[(k - 2) % 3]) + " ad " + std::to_string(p.a) + " msg " + std::to_string(p.m); }
  void op(int k) override {
    f = mix64(f, k + 1 + 100 * who);
    if (k < 2) { g.key(rnd(16, 10 * who + k).data()); return; }
    V iv = rnd(16, 70 + k), c, t(16);
    if (k == nops() - 1) { g.dec(iv, rnd(9, 4), rnd(40, 5), rnd(16, 6)); return; }
    auto p = P[(k - 2) / 3]; V ad = rnd(p.a, 71 + k + who), m = rnd(p.m, 72 + k + who);
    if ((k - 2) % 3 == 0) { g.enc(iv, ad, m, c, t); return; }
    c.resize(p.m + 1); ref::Aegis128::enc(g.k, iv.data(), ad.data(), p.a, m.data(), p.m, c.data(), t.data()); c.resize(p.m);
    if ((k - 2) % 3 == 2) t[7] ^= 0x10;
    g.dec(iv, ad, c, t);
  }
  b64 fp() const override { return f; }
};
static Sess *mk(int w) { return new S(w); }
static void trip(const V &k, const V &iv, const V &ad, const V &m) { Ag g; g.key(k.data()); V c, t; g.enc(iv, ad, m, c, t); g.dec(iv, ad, c, t); state(hashb(t.data(), 16)); }
SCHED_SCENARIO
SCENARIO(history) { g_history(mk, Z(C.thorough ? 4 : 3, C.thorough ? 3 : 2)); }
SCENARIO(interleave) { g_interleave(mk, Z(4, 3)); }
SCENARIO(memory) { g_memory(mk, Z(C.thorough ? 3 : 2, 2)); }
SCENARIO(buffers) { g_buffers(mk, Z(3, 2), false); }
SCENARIO(buflen) { IO.place = choose(3, "placement"); if (!IO.place) { IO.ain = choose(9); IO.aout = choose(9); } int a = choose(Z(40, 20)), m = choose(Z(70, 20)); trip(rnd(16, 1), rnd(16, 2), rnd(a, 3), rnd(m, 4)); }
SCENARIO(lengths) { int N = Z(C.thorough ? 260 : 140, 50), a = choose(N, "associated data"), m = choose(N, "message"), ct = choose(2); trip(rnd(16, 1), rnd(16, 2), ct ? V(a, 0) : rnd(a, 3), ct ? V(m, 0xff) : rnd(m, 4)); }
SCENARIO(longlen) { int n = choose(Z(C.thorough ? 9000 : 4200, 600), "length"), w = choose(2, "which"); trip(rnd(16, 1), rnd(16, 2), rnd(w ? n : 13, 3), rnd(w ? 13 : n, 4)); }
SCENARIO(keybytes) { int v = choose(256, "value"), p = choose(16, "position"), bg = choose(2), w = choose(2, "key or IV"); V x(16, bg ? 0xff : 0); x[p] = v; trip(w ? x : rnd(16, 1), w ? rnd(16, 2) : x, rnd(5, 3), rnd(37, 4)); }
SCENARIO(databytes) { int v = choose(256, "value"), n = (const int[]){1, 15, 16, 17, 35}[choose(Z(5, 3), "length")], p = choose(n, "position"), bg = choose(2), w = choose(2, "message or AD"); V x(n, bg ? 0xff : 0); x[p] = v; trip(rnd(16, 1), rnd(16, 2), w ? x : rnd(5, 3), w ? rnd(20, 4) : x); }
// ---- rejection -----------------------------------------------------------
// one genuine packet; one modification; then the genuine packet must still be accepted and a fresh one processed
static void tamper(int alen, int mlen, int kind, std::function<bool(V &iv, V &ad, V &c, V &t)> mod) {
  Ag g; g.key(rnd(16, 1).data()); V iv = rnd(16, 2), ad = rnd(alen, 3), m = rnd(mlen, 4), c, t; g.enc(iv, ad, m, c, t);
  V i2 = iv, a2 = ad, c2 = c, t2 = t; if (!mod(i2, a2, c2, t2)) return;
  bool same = i2 == iv && a2 == ad && c2 == c && t2 == t;
  bool acc = g.dec(i2, a2, c2, t2); if (acc != same) fail("verdict %d for a packet that is %s", acc, same ? "genuine" : "modified");
  g.dec(iv, ad, c, t); V c3, t3; g.enc(iv, ad, m, c3, t3);
  state(mix64(hashb(c2.data(), c2.size(), kind), hashb(t2.data(), 16) ^ hashb(a2.data(), a2.size()) * 3 ^ hashb(i2.data(), 16)));
}
static const PK TP[] = {{0, 0}, {0, 1}, {1, 0}, {5, 5}, {16, 16}, {0, 17}, {17, 0}, {20, 33}, {33, 20}, {0, 16}, {16, 0}, {64, 64}, {15, 31}};
SCENARIO(bits) {  // every single bit of everything
  int i = choose(13, "lengths"), w = choose(4, "field"); PK p = TP[i]; int n = w == 0 ? 16 : w == 1 ? p.a : w == 2 ? p.m : 16;
  if (!n) return; int b = choose(n * 8, "bit");
  tamper(p.a, p.m, w, [&](V &iv, V &ad, V &c, V &t) { V &x = w == 0 ? iv : w == 1 ? ad : w == 2 ? c : t; x[b / 8] ^= 1 << b % 8; return true; });
}
SCENARIO(tagbytes) { // every value of every tag byte
  int d = choose(256, "difference"), pos = choose(16, "byte"), i = choose(Z(6, 2), "lengths"); PK p = TP[i];
  tamper(p.a, p.m, 9, [&](V &, V &, V &, V &t) { t[pos] ^= d; return true; });
}
SCENARIO(tagpairs) { // the same or opposite difference at two positions; equal halves; constants
  int a = choose(16, "byte"), b = choose(16, "byte"), d = choose(Z(10, 4), "difference"), i = choose(2, "lengths"); PK p = TP[i ? 7 : 3];
  static const b8 D[] = {0xff, 1, 0x80, 0x55, 2, 4, 8, 0x10, 0x20, 0x40};
  tamper(p.a, p.m, 10, [&](V &, V &, V &, V &t) { if (d == 9) { std::swap(t[a], t[b]); return true; } t[a] ^= D[d]; if (b != a) t[b] ^= D[d]; return true; });
}
SCENARIO(tagbits2) { int a = choose(128, "bit"), b = choose(Z(128, 9), "bit"); tamper(5, 21, 11, [&](V &, V &, V &, V &t) { t[a / 8] ^= 1 << a % 8; if (a != b) t[b / 8] ^= 1 << b % 8; return true; }); }
SCENARIO(tagconst) { int v = choose(256, "value"), n = choose(17, "leading genuine bytes"), i = choose(3, "lengths"); PK p = TP[i * 3]; tamper(p.a, p.m, 12, [&](V &, V &, V &, V &t) { for (int k = n; k < 16; k++) t[k] = v; return true; }); }
SCENARIO(shapes) { // truncation, extension, moving bytes between AD and message, swapped blocks
  int i = choose(13, "lengths"), kind = choose(6, "kind"), x = choose(Z(40, 20), "amount"); PK p = TP[i];
  tamper(p.a, p.m, 20 + kind, [&](V &iv, V &ad, V &c, V &t) {
    if (kind == 0) { if (x >= (int)c.size()) return false; c.resize(x); }
    if (kind == 1) { if (x >= (int)ad.size()) return false; ad.resize(x); }
    if (kind == 2) c.resize(c.size() + x, 0);
    if (kind == 3) ad.resize(ad.size() + x, 0);
    if (kind == 4) { if (x > (int)ad.size()) return false; c.insert(c.begin(), ad.end() - x, ad.end()); ad.resize(ad.size() - x); }
    if (kind == 5) { if (x >= 16) return false; std::rotate(t.begin(), t.begin() + x, t.end()); }
    (void)iv; return true;
  });
}
SCENARIO(wrongkey) { int b = choose(128, "bit"), i = choose(Z(13, 4), "lengths"); PK p = TP[i]; Ag g; V k = rnd(16, 1); g.key(k.data()); V iv = rnd(16, 2), ad = rnd(p.a, 3), m = rnd(p.m, 4), c, t; g.enc(iv, ad, m, c, t); k[b / 8] ^= 1 << b % 8; g.key(k.data()); if (g.dec(iv, ad, c, t)) fail("accepted under a different key"); state(b * 16 + i); }
// histories: genuine, forged, spliced and replayed packets of two messages
SCENARIO(forgeries) {
  Ag g; g.key(rnd(16, 1).data()); V iv[2], ad[2], m[2], c[2], t[2];
  for (int i = 0; i < 2; i++) { iv[i] = rnd(16, 10 + i); ad[i] = rnd(7, 20 + i); m[i] = rnd(21, 30 + i); g.enc(iv[i], ad[i], m[i], c[i], t[i]); }
  b64 f = 0;
  for (int d = 0; d < Z(C.thorough ? 4 : 3, 2); d++) {
    int x = choose(16, "mixture of two packets"); if (C.logging) logf("  IV of %d, AD of %d, ciphertext of %d, tag of %d", x & 1, x >> 1 & 1, x >> 2 & 1, x >> 3);
    bool acc = g.dec(iv[x & 1], ad[x >> 1 & 1], c[x >> 2 & 1], t[x >> 3]); if (acc != (x == 0 || x == 15)) fail("verdict %d for mixture %d", acc, x);
    f = mix64(f, x); state(f);
  }
}
struct RK {
  Ag g; V iv;
  void load(const Vec &k, const Vec &v) { g.key(k.data()); iv = v; }
  void change(const Vec &k, const Vec &v, int i) { if (!i) g.key(k.data()); iv = v; }
  void use(int n) { V c, t, ad = rnd(n / 3, 7), m = rnd(n, 8); g.enc(iv, ad, m, c, t); g.dec(iv, ad, c, t); t[n % 16] ^= 1 << n % 8; g.dec(iv, ad, c, t); }
};
SCENARIO(rekey) { g_rekey<RK>(16, 16); }
SCENARIO(repeat) { g_repeat(mk, Z(200, 20), Z(66000, 600)); }
// related packets under one key: message and associated data differ from the packet before in one place
SCENARIO(related) {
  int n = (const int[]){16, 20, 48}[choose(Z(3, 2), "length")], w = choose(2, "message or associated data"), r = choose(nrel(n), "relation"), iv2 = choose(2, "IV");
  Ag g; g.key(rnd(16, 1).data()); V x = rnd(n, 3), y = x, o = rnd(9, 4), c, t, c2, t2; relate(y, r); V i1 = rnd(16, 5), i2 = iv2 ? rnd(16, 6) : i1;
  auto E = [&](const V &iv, const V &z, V &c, V &t) { if (w) g.enc(iv, z, o, c, t); else g.enc(iv, o, z, c, t); }; auto D = [&](const V &iv, const V &z, const V &c, const V &t) { if (w) g.dec(iv, z, c, t); else g.dec(iv, o, c, t); };
  E(i1, x, c, t); E(i2, y, c2, t2); D(i2, y, c2, t2); D(i1, x, c, t); D(i1, x, c, t2); D(i1, x, c2, t); D(i2, y, c, t2); D(i1, y, c, t); E(i1, x, c, t); state(hashb(t2.data(), 16));
}
// many messages, so that every tag byte takes special values; then a change behind, at, and before that byte
SCENARIO(manytags) {
  int i = choose(Z(C.thorough ? 30000 : 4000, 300), "message"), k = choose(2, "lengths"); Ag g; g.key(rnd(16, 1).data()); V iv = rnd(16, 100 + i), ad = rnd(k ? 3 : 0, 5), m = rnd(k ? 17 : 6, 6), c, t; g.enc(iv, ad, m, c, t); g.dec(iv, ad, c, t);
  for (int p = 0; p < 16; p++) { V x = t; x[p] ^= (const b8[]){1, 0x80, 0xff, 0x20}[(i + p) & 3]; g.dec(iv, ad, c, x); } g.dec(iv, ad, c, t); state(hashb(t.data(), 16));
}
SCENARIO(large) {
  static const b64 B[] = {1 << 12, 1 << 16, 1 << 18, 1 << 20, 1 << 22, 1 << 24}; static const int D[] = {-16, -1, 0, 1, 17};
  b64 n = B[choose(Z(C.thorough ? 6 : 5, 3), "size")]; n += D[choose(5, "offset")]; int w = choose(3, "large part");
  V k = rnd(16, 1), iv = rnd(16, 2), ad = rnd(w == 0 ? 13 : n, 3), m = rnd(w == 1 ? 13 : n, 4), c(m.size()), t(16), wc(m.size()), wt(16), pt(m.size()); St<aegis_state> st;
  ref::Aegis128::enc(k.data(), iv.data(), ad.data(), ad.size(), m.data(), m.size(), wc.data(), wt.data());
  int r = -1;
  in_small_stack([&] { CALL(aegis_load_key(st, k.data())); CALL(aegis_encrypt_packet(st, c.data(), t.data(), m.data(), ad.data(), iv.data(), ad.size(), m.size())); r = CALL(aegis_decrypt_packet(st, pt.data(), wc.data(), ad.data(), iv.data(), wt.data(), ad.size(), m.size())); });
  eq("ciphertext", c.data(), wc.data(), c.size()); eq("tag", t.data(), wt.data(), 16); eqv("verdict", r, 1); eq("plaintext", pt.data(), m.data(), m.size());
  wt[3] ^= 1; memset(pt.data(), 0x77, pt.size());
  in_small_stack([&] { r = CALL(aegis_decrypt_packet(st, pt.data(), wc.data(), ad.data(), iv.data(), wt.data(), ad.size(), m.size())); });
  eqv("verdict", r, 0); V z(m.size(), 0); eq("released plaintext", pt.data(), z.data(), z.size()); state(mix64(n, w));
}
static void big(int w, b64 n, bool back) {
  BigIn in(n, 5); V k = rnd(16, 1), iv = rnd(16, 2), s = rnd(13, 3); b8 t[16], wt[16]; St<aegis_state> st; ref::Aegis128 x; x.init(k.data(), iv.data()); int r = -1;
  if (w == 0) {
    b8 c[16], wc[16], p[16]; Beside b([&] { x.ad(in.p, n); x.msg(wc, s.data(), 13, false); x.fin(wt, n, 13); });
    in_small_stack([&] { CALL(aegis_load_key(st, k.data())); CALL(aegis_encrypt_packet(st, c, t, s.data(), in.p, iv.data(), n, 13)); });
    b.join(); eq("ciphertext", c, wc, 13); eq("tag of a large packet", t, wt, 16);
    if (back) { in_small_stack([&] { r = CALL(aegis_decrypt_packet(st, p, c, in.p, iv.data(), t, n, 13)); }); eqv("verdict", !!r, 1); eq("plaintext", p, s.data(), 13); }
  } else {
    BigOut out(n); const b64 part = 1 << 20; std::vector<b64> h;
    Beside b([&] { x.ad(s.data(), 13); V q(part); for (b64 o = 0; o < n; o += part) { b64 m = n - o < part ? n - o : part; x.msg(q.data(), in.p + o, m, false); h.push_back(hashb(q.data(), m)); } x.fin(wt, 13, n); });
    in_small_stack([&] { CALL(aegis_load_key(st, k.data())); CALL(aegis_encrypt_packet(st, out.p, t, in.p, s.data(), iv.data(), 13, n)); });
    b.join(); for (b64 o = 0, i = 0; o < n; o += part, i++) { b64 m = n - o < part ? n - o : part; if (hashb(out.p + o, m) != h[i]) fail("ciphertext differs in the megabyte that starts at byte %llu", (unsigned long long)o); state(h[i]); }
    eq("tag of a large packet", t, wt, 16);
    if (back) {
      BigOut pt(n); in_small_stack([&] { r = CALL(aegis_decrypt_packet(st, pt.p, out.p, s.data(), iv.data(), t, 13, n)); }); eqv("verdict", !!r, 1);
      for (b64 o = 0; o < n; o += part) { b64 m = n - o < part ? n - o : part; if (memcmp(pt.p + o, in.p + o, m)) fail("plaintext differs in the megabyte that starts at byte %llu", (unsigned long long)o); }
    }
  }
  state(w);
}
// beyond 2^29 bytes the bit lengths in the tag exceed 32 bits
SCENARIO(huge) {
  big(choose(2, "large part"), (1ull << 29) + 5, false);
}
// sizes that do not fit in 32 bits; what was encrypted is decrypted again
SCENARIO(giga4) { big(choose(2, "large part"), (1ull << 32) + 17, true); }
// a forgery of such a size: no byte of it may be released
SCENARIO(gigaforged) {
  b64 n = (1ull << 32) + 17; BigIn in(n, 5); BigOut pt(n); V k = rnd(16, 1), iv = rnd(16, 2), s = rnd(13, 3), t = rnd(16, 4); St<aegis_state> st; int r = -1;
  in_small_stack([&] { CALL(aegis_load_key(st, k.data())); r = CALL(aegis_decrypt_packet(st, pt.p, in.p, s.data(), iv.data(), t.data(), 13, n)); }); eqv("verdict", !!r, 0);
  for (b64 o = 0; o < n; o++) if (o + 8 <= n ? (o & 7) == 0 && *(b64 *)(pt.p + o) : pt.p[o]) fail("released plaintext at byte %llu", (unsigned long long)o);
  state(n);
}
