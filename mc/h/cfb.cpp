// AES-CFB with carry-over, one of the three directories.
#include "aes_cfb.h"
#include "../gen.h"
#include "../big.h"
#include "../ref/aes.h"
using namespace mc;
#ifdef SLOW
#define Z(fast, slow) (slow)
#else
#define Z(fast, slow) (fast)
#endif
#ifndef REF_ROUNDS
#define REF_ROUNDS 10
#endif
static const int ENC = ENCRYPT, DEC = DECRYPT;
struct Cfb {
  St<aes_state> st; ref::AesCfb r; bool on = false;
  void init(const b8 *k, const b8 *v) { Arg a(k, 16, IO.ain), b(v, 16, IO.ain); CALL(aes_cfb_initialize(st, a, b)); r.init(k, v, REF_ROUNDS); on = true; a.ck("key"); b.ck("IV"); st.ck("state"); }
  std::vector<b8> pkt(const b8 *m, size_t n, bool dec) {
    std::vector<b8> w(n); r.pkt(w.data(), m, n, dec);
    xform(dec ? "CFB plaintext" : "CFB ciphertext", n, m, w.data(), [&](b8 *o, b8 *i) { CALL(aes_cfb_process_packet(st, o, i, (int)n, dec ? DEC : ENC)); });
    st.ck("state"); return w;
  }
};
static const int SZ[] = {16, 0, 1, 4, 15, 17, 33, 48, 5, 12, 32, 64, 3, 31, 100};
static int nsz() { return C.thorough ? 15 : 9; }
struct S : Sess {
  Cfb c; int who;
  S(int w) : who(w) {}
  int nops() const override { return 3 + 2 * nsz(); }
  bool can(int k) const override { return k < 3 || c.on; }
  std::string nm(int k) const override { return k < 3 ? "initialise " + std::to_string(k) : (k - 3) % 2 ? "decrypt " + std::to_string(SZ[(k - 3) / 2]) : "encrypt " + std::to_string(SZ[(k - 3) / 2]); }
  void op(int k) override {
    if (k < 3) { auto a = rnd(16, 50 + 7 * who + (k == 1)), b = k == 2 ? std::vector<b8>(16, 0xff) : rnd(16, 60 + 9 * who + k); c.init(a.data(), b.data()); }
    else { int n = SZ[(k - 3) / 2]; c.pkt(rnd(n, 90 * who + k).data(), n, (k - 3) % 2); }
  }
  b64 fp() const override { return c.on ? c.r.fp() : 0; }
};
static Sess *mk(int w) { return new S(w); }
// encrypt, then decrypt on a second session: both against the model, and the plaintext comes back
static void trip(const std::vector<b8> &k, const std::vector<b8> &v, const std::vector<std::vector<b8>> &pk) {
  Cfb e, d; e.init(k.data(), v.data()); d.init(k.data(), v.data());
  for (auto &p : pk) { auto c = e.pkt(p.data(), p.size(), false); auto q = d.pkt(c.data(), c.size(), true); eq("decrypted packet", q.data(), p.data(), p.size()); state(e.r.fp()); }
}
SCHED_SCENARIO
SCENARIO(history) { g_history(mk, Z(C.thorough ? 5 : 4, C.thorough ? 4 : 3)); }
SCENARIO(interleave) { g_interleave(mk, Z(4, 3)); }
SCENARIO(memory) { g_memory(mk, Z(C.thorough ? 4 : 3, 2)); }
SCENARIO(buffers) { g_buffers(mk, 3, false); }
SCENARIO(buflen) {
  IO.place = choose(3, "placement"); if (!IO.place) { IO.ain = choose(9); IO.aout = choose(9); }
  int n = choose(Z(160, 60), "length"), dec = choose(2, "direction"); Cfb c; c.init(rnd(16, 1).data(), rnd(16, 2).data()); auto m = rnd(n, 3); c.pkt(m.data(), n, dec); c.pkt(m.data(), n, dec); state(c.r.fp());
}
SCENARIO(lengths) { int n = choose(Z(C.thorough ? 9000 : 4300, 800), "length"), ct = choose(3); trip(rnd(16, 1), rnd(16, 2), {ct == 0 ? rnd(n, 3) : std::vector<b8>(n, ct == 1 ? 0 : 0xff), rnd(21, 4)}); }
SCENARIO(split3) { int N = Z(C.thorough ? 50 : 35, 20), a = choose(N), b = choose(N), c = choose(N); trip(rnd(16, 1), rnd(16, 2), {rnd(a, 3), rnd(b, 4), rnd(c, 5), rnd(18, 6)}); }
// long packet sequences over all residues
SCENARIO(residues) {
  static const int L[] = {1, 2, 5, 8, 15, 16, 18, 33};
  std::vector<std::vector<b8>> p; int D = Z(C.thorough ? 6 : 5, 4); for (int d = 0; d < D; d++) p.push_back(rnd(L[choose(8, "length")], d + 10)); trip(rnd(16, 1), rnd(16, 2), p);
}
SCENARIO(small) { // runs of packets shorter than a block: the register is filled by several packets
  std::vector<std::vector<b8>> p; int a = 1 + choose(15), b = 1 + choose(15), n = Z(20, 9); for (int d = 0; d < n; d++) p.push_back(rnd(d % 2 ? a : b, d + 10)); trip(rnd(16, 1), rnd(16, 2), p);
}
SCENARIO(keybytes) { int v = choose(256, "value"), p = choose(16, "position"), bg = choose(3); auto k = bg == 2 ? rnd(16, 8) : std::vector<b8>(16, bg ? 0xff : 0); k[p] = v; trip(k, rnd(16, 2), {rnd(33, 3)}); }
SCENARIO(keybits) { int i = choose(128, "bit"), j = choose(128, "bit"); std::vector<b8> k(16, 0); k[i / 8] ^= 1 << i % 8; k[j / 8] ^= 1 << j % 8; trip(k, rnd(16, 2), {rnd(16, 3)}); }
SCENARIO(ivbytes) { int v = choose(256, "value"), p = choose(16, "position"), bg = choose(3); auto k = bg == 2 ? rnd(16, 8) : std::vector<b8>(16, bg ? 0xff : 0); k[p] = v; trip(rnd(16, 2), k, {rnd(33, 3)}); }
SCENARIO(databytes) { int v = choose(256, "value"), n = (const int[]){1, 4, 15, 16, 17, 35}[choose(6)], p = choose(n, "position"), bg = choose(2); std::vector<b8> m(n, bg ? 0xff : 0); m[p] = v; trip(rnd(16, 2), rnd(16, 1), {m, rnd(16, 5)}); }
struct RK {
  Cfb c;
  void load(const Vec &k, const Vec &v) { c.init(k.data(), v.data()); }
  void change(const Vec &k, const Vec &v, int) { load(k, v); }
  void use(int n) { c.pkt(rnd(n, 3).data(), n, false); c.pkt(rnd(n, 4).data(), n, true); c.pkt(rnd(n, 5).data(), n, false); }
};
SCENARIO(rekey) { g_rekey<RK>(16, 16); }
SCENARIO(repeat) { g_repeat(mk, Z(600, 60), Z(66000, 3000)); }
SCENARIO(large) {
  static const b64 B[] = {1 << 12, 1 << 16, 1 << 18, 1 << 20, 1 << 22, 1 << 24}; static const int D[] = {-16, -1, 0, 1, 17};
  b64 n = B[choose(Z(C.thorough ? 6 : 5, 4), "size")]; n += D[choose(5, "offset")]; bool dec = choose(2, "direction");
  Cfb c; c.init(rnd(16, 1).data(), rnd(16, 2).data()); auto m = rnd(n, 3); std::vector<b8> w(n), o(n);
  c.r.pkt(w.data(), m.data(), n, dec); in_small_stack([&] { CALL(aes_cfb_process_packet(c.st, o.data(), m.data(), (int)n, dec ? DEC : ENC)); }); eq("CFB output", o.data(), w.data(), n);
  c.pkt(m.data(), 40, dec); state(c.r.fp());
}
// one very large packet, then a small one. In decryption every output block depends on the input only, so windows can be compared;
// in encryption the model computes everything.
SCENARIO(huge) {
  bool dec = choose(2, "direction"); b64 n = dec ? (1ull << 28) + 21 : (1ull << 26) + 5; if (C.thorough) n = dec ? (1ull << 31) - 1 : (1ull << 28) + 9;
  Cfb c; c.init(rnd(16, 1).data(), rnd(16, 2).data()); BigIn in(n, 5); BigOut out(n);
  in_small_stack([&] { CALL(aes_cfb_process_packet(c.st, out.p, in.p, (int)n, dec ? DEC : ENC)); });
  std::vector<b8> w(1 << 16);
  for (b64 o = 0; o < n; o += 1 << 16) {
    b64 k = n - o < (1 << 16) ? n - o : 1 << 16;
    if (dec && k == 1 << 16) { // both ends of each 64 KiB chunk
      if (o) memcpy(c.r.reg, in.p + o - 16, 16);
      c.r.pkt(w.data(), in.p + o, 32, true); eq("CFB output window", out.p + o, w.data(), 32);
      memcpy(c.r.reg, in.p + o + k - 48, 16); c.r.pkt(w.data(), in.p + o + k - 32, 32, true); eq("CFB output window", out.p + o + k - 32, w.data(), 32);
    } else { c.r.pkt(w.data(), in.p + o, k, dec); eq("CFB output", out.p + o, w.data(), k); }
    state(o);
  }
  c.pkt(in.p, 40, dec);
}
// ---- self-synchronisation (C08) --------------------------------------------
// sender transmits packets; per packet the channel delivers, drops, corrupts or repeats it, the receiver may start from a wrong IV;
// oracle: once the last 16 ciphertext bytes of the sender's stream before a delivered genuine packet are the last 16 bytes the receiver
// processed, the packet decrypts to what was sent
SCENARIO(selfsync) {
  static const int L[] = {1, 7, 8, 15, 16, 17, 32, 40};
  int np = Z(C.thorough ? 5 : 4, 4), nl = Z(8, 5), na = 6;
  bool wrongiv = choose(2, "receiver IV"); auto k = rnd(16, 1), v = rnd(16, 2), v2 = wrongiv ? rnd(16, 99) : v;
  Cfb s, r; s.init(k.data(), v.data()); r.init(k.data(), v2.data());
  std::vector<b8> sent(v), recv(v2); b64 f = wrongiv; int genuine = 0;
  for (int i = 0; i < np; i++) {
    int n = i == np - 1 ? 20 : L[choose(nl, "packet length")]; auto p = rnd(n, 10 + i); auto c = s.pkt(p.data(), n, false);
    int act = i == np - 1 ? 0 : choose(na, "channel action");
    logf("  packet of %d: %s", n, (const char *[]){"delivered", "dropped", "first byte corrupted", "last byte corrupted", "delivered twice", "one foreign packet inserted before it"}[act]);
    auto deliver = [&](const std::vector<b8> &x, bool isgen) {
      bool sync = isgen && recv.size() >= 16 && !memcmp(&recv[recv.size() - 16], &sent[sent.size() - 16], 16);
      auto q = r.pkt(x.data(), x.size(), true); recv.insert(recv.end(), x.begin(), x.end());
      if (sync) { eq("plaintext after resynchronisation", q.data(), p.data(), n); genuine++; }
    };
    if (act == 0) deliver(c, true);
    if (act == 2) { auto x = c; x[0] ^= 0x40; deliver(x, false); }
    if (act == 3) { auto x = c; x[n - 1] ^= 1; deliver(x, false); }
    if (act == 4) { deliver(c, true); deliver(c, false); }
    if (act == 5) { deliver(rnd(11, 77 + i), false); deliver(c, true); }
    sent.insert(sent.end(), c.begin(), c.end());
    f = mix64(f, act * 64 + n); state(mix64(f, r.r.fp()));
  }
}
// a single fault (any bit of any ciphertext byte) in a stream of equal packets: exactly 16 bytes of genuine ciphertext later all is well,
// and before the fault nothing is disturbed
SCENARIO(fault) {
  int L = 1 + choose(Z(40, 18), "packet length"), np = (64 + L - 1) / L, pi = choose(np, "packet"), by = choose(L, "byte"), bit = choose(8, "bit");
  auto k = rnd(16, 1), v = rnd(16, 2); Cfb s, r; s.init(k.data(), v.data()); r.init(k.data(), v.data()); int since = -1;
  for (int i = 0; i < np + 3; i++) {
    auto p = rnd(L, 10 + i); auto c = s.pkt(p.data(), L, false); auto x = c;
    if (i == pi) x[by] ^= 1 << bit;
    auto q = r.pkt(x.data(), L, true);
    // byte j depends on the 16 stream bytes before its block
    for (int j = 0; j < L; j++) {
      int abs = i * L + j, blk = i * L + j / 16 * 16, f = pi * L + by;
      bool touched = abs == f || (f < blk && f >= blk - 16);
      if (!touched) eqv("plaintext byte not reached by the fault", q[j], p[j]);
    }
    state(r.r.fp()); since = 0;
  }
  (void)since;
}
// transcripts for the cross-build comparison use the same scenarios without reference
