// The encrypt-then-MAC compositions (AES-CFB: ciphertext || tag, HC-128: IV || ciphertext || tag)
// under an adversary that controls the channel.  The receiver is the composition of the real
// validation and decryption; the oracle is "accept exactly what the sender produced".
#include "hmac.h"
#include "aes_cfb.h"
#include "hc128.h"
#include "../gen.h"
#include "../ref/hash.h"
#include "../ref/aes.h"
using namespace mc;
typedef std::vector<b8> V;
static const int ENC = ENCRYPT, DEC = DECRYPT;
static V cat(const V &a, const V &b) { V r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
struct Packet { V wire, plain; };
// -1 = no IV on the wire
struct Scheme { int hc, ivn, tn; };
static const Scheme SCH[] = {{0, 0, 16}, {1, 16, 16}, {0, 0, 32}, {1, 16, 32}};
static V ekey() { return rnd(16, 11); } static V akey(int i = 0) { return rnd(64, 12 + i); } static V iv0() { return rnd(16, 15); }
static int N0() { return 3; }
struct Sender {
  const Scheme &s; St<hmac_state> h; St<aes_state> a; St<hc128_state> c; int n = 0; V hist;
  Sender(const Scheme &s_, const V &ak = akey()) : s(s_) { Arg k(ak.data(), ak.size()); CALL(hmac_load_key(h, k, (int)ak.size())); Arg e(ekey().data(), 16), v(iv0().data(), 16); if (!s.hc) CALL(aes_cfb_initialize(a, e, v)); hist = iv0(); }
  Packet send(const V &p) {
    size_t m = p.size(); Buf w(s.ivn + m + s.tn); Arg in(p.data(), m);
    if (s.hc) { V iv = rnd(16, 200 + n); memcpy(w.p, iv.data(), 16); Arg e(ekey().data(), 16); CALL(hc128_initialize(c, e, w.p)); CALL(hc128_process_packet(c, w.p + 16, in, m)); }
    else CALL(aes_cfb_process_packet(a, w.p, in, (int)m, ENC));
    CALL(hmac_tag_generation(h, w.p + s.ivn + m, w.p, s.ivn + m, s.tn)); w.ck("sealed packet"); in.ck("plaintext"); n++;
    return Packet{V(w.p, w.p + w.n), p};
  }
};
struct Receiver {
  const Scheme &s; St<hmac_state> h; St<aes_state> a; St<hc128_state> c; ref::AesCfb r;
  Receiver(const Scheme &s_, const V &ak = akey()) : s(s_) { Arg k(ak.data(), ak.size()); CALL(hmac_load_key(h, k, (int)ak.size())); Arg e(ekey().data(), 16), v(iv0().data(), 16); if (!s.hc) CALL(aes_cfb_initialize(a, e, v)); r.init(ekey().data(), iv0().data(), 10); }
  // returns whether accepted; out = delivered plaintext
  bool recv(const V &w, V &out) {
    out.clear(); if (w.size() < (size_t)(s.ivn + s.tn)) return false;
    size_t m = w.size() - s.ivn - s.tn; Arg x(w.data(), w.size()); int ok; CALL(ok = hmac_tag_validation(h, x + s.ivn + m, x, s.ivn + m, s.tn)); x.ck("received packet");
    if (!ok) return false;
    Buf o(m); if (s.hc) { Arg e(ekey().data(), 16); CALL(hc128_initialize(c, e, x)); CALL(hc128_process_packet(c, o.p, x + s.ivn, m)); } else CALL(aes_cfb_process_packet(a, o.p, x, (int)m, DEC));
    o.ck("plaintext"); x.ck("received packet"); out.assign(o.p, o.p + m); return true;
  }
};
struct Chan {
  const Scheme &s; Sender tx; Receiver rx; std::vector<Packet> pk; b64 fp = 0;
  V stx, srx;          // ciphertext streams (CFB): what precedes each packet at the sender, what the receiver accepted
  std::vector<V> pre;
  Chan(int sc, const std::vector<int> &lens) : s(SCH[sc]), tx(s), rx(s) { stx = iv0(); srx = iv0(); for (size_t i = 0; i < lens.size(); i++) { pre.push_back(stx); pk.push_back(tx.send(rnd(lens[i], 40 + i))); if (!s.hc) stx.insert(stx.end(), pk[i].wire.begin(), pk[i].wire.end() - s.tn); } }
  void deliver(const V &w) {
    int g = -1; for (size_t i = 0; i < pk.size(); i++) if (pk[i].wire == w) g = i;
    V out; bool ok = rx.recv(w, out); fp = mix64(fp, hashb(w.data(), w.size(), ok)); state(fp); C.checks++;
    if (ok && g < 0) fail("the receiver accepted a packet of %zu bytes that the sender never produced: %s", w.size(), hex(w.data(), w.size(), 100).c_str());
    if (!ok && g >= 0) fail("the receiver rejected genuine packet %d (%zu bytes)", g, w.size());
    if (!ok) return;
    V want(out.size());
    if (s.hc) want = pk[g].plain;
    else {
      rx.r.pkt(want.data(), w.data(), out.size(), true); V &p = pre[g];
      if (V(p.end() - 16, p.end()) == V(srx.end() - 16, srx.end())) eq("plaintext of a packet delivered in step", want.data(), pk[g].plain.data(), want.size());   // in step with the sender
      if (out.size() > 16) eq("plaintext 16 bytes after a gap", out.data() + 16, pk[g].plain.data() + 16, out.size() - 16);
      srx.insert(srx.end(), w.begin(), w.end() - s.tn);
    }
    if (want.size() != out.size()) fail("wrong plaintext length"); eq("delivered plaintext", out.data(), want.data(), want.size());
  }
  void end() { for (size_t i = 0; i < pk.size(); i++) deliver(pk[i].wire); }
};
static const int LN[] = {16, 0, 1, 15, 17, 33, 40};
// one modified packet: every bit of every packet
SCENARIO(bits) {
  int sc = choose(4, "scheme"), l = choose(7, "length"), i = choose(3, "packet"); Chan c(sc, {LN[l], LN[(l + 2) % 7], LN[(l + 4) % 7]}); V w = c.pk[i].wire; if (w.empty()) return;
  int b = choose((int)w.size() * 8, "bit"); w[b / 8] ^= 1 << b % 8; c.deliver(w); c.end();
}
SCENARIO(bytes) { int sc = choose(4, "scheme"), l = choose(3, "length"); Chan c(sc, {LN[l * 2 + 1]}); V w = c.pk[0].wire; int p = choose((int)w.size(), "position"), v = choose(256, "value"); w[p] = v; c.deliver(w); c.end(); }
SCENARIO(bitpairs) { int sc = choose(2, "scheme"); Chan c(sc, {5}); V w = c.pk[0].wire; int n = w.size() * 8, a = choose(n), b = choose(n); w[a / 8] ^= 1 << a % 8; w[b / 8] ^= 1 << b % 8; c.deliver(w); c.end(); }
// every truncation and every extension, at either end
SCENARIO(lengths) { int sc = choose(4, "scheme"), l = choose(7, "length"); Chan c(sc, {LN[l], 20}); V w = c.pk[0].wire; int k = choose(5, "kind"), n = choose(90, "amount"); if (k == 0) w.resize(w.size() > (size_t)n ? w.size() - n : 0); else if (k == 1) w.erase(w.begin(), w.begin() + (w.size() > (size_t)n ? n : w.size())); else if (k == 2) w.resize(w.size() + n, 0); else if (k == 3) w.insert(w.begin(), n, 0); else { V t = w; t.resize(n); w = cat(w, t); } c.deliver(w); c.end(); }
// parts of two packets joined at every position
SCENARIO(splice) { int sc = choose(4, "scheme"), l = choose(7, "length"); Chan c(sc, {LN[l], LN[(l + 1) % 7], LN[l]}); int i = choose(3), j = choose(3); V &a = c.pk[i].wire, &b = c.pk[j].wire; int x = choose((int)a.size() + 1, "cut in the first"), y = choose(3, "rest from"); size_t yy = y == 0 ? x : y == 1 ? b.size() - (b.size() < (size_t)c.s.tn ? b.size() : c.s.tn) : c.s.ivn; if (yy > b.size()) yy = b.size(); V w(a.begin(), a.begin() + x); w.insert(w.end(), b.begin() + yy, b.end()); c.deliver(w); c.end(); }
// every sequence of adversary actions
static V act(Chan &c, int k) {
  int n = c.pk.size(); if (k < n) return c.pk[k].wire; k -= n; V w = c.pk[k % n].wire; int t = k / n; const V &o = c.pk[(k + 1) % n].wire;
  switch (t) {
    case 0: w.back() ^= 1; break; case 1: w[w.size() - c.s.tn] ^= 0x80; break; case 2: w[0] ^= 1; break; case 3: w.pop_back(); break; case 4: w.push_back(0); break; case 5: w.insert(w.begin(), 0); break;
    case 6: std::copy(o.end() - c.s.tn, o.end(), w.end() - c.s.tn); break; case 7: w = cat(w, o); break; case 8: w.erase(w.begin()); break; default: std::fill(w.end() - c.s.tn, w.end(), 0); break;
  }
  return w;
}
SCENARIO(sequences) { int sc = choose(2, "scheme"), l = choose(4, "lengths"); static const int P[4][3] = {{16, 5, 40}, {0, 1, 33}, {17, 17, 17}, {3, 16, 15}}; Chan c(sc, {P[l][0], P[l][1], P[l][2]}); int D = C.thorough ? 4 : 3; for (int d = 0; d < D; d++) { int k = choose(3 + 3 * 10, "action"); logf("  action %d", k); c.deliver(act(c, k)); } c.deliver(c.pk[2].wire); }
// every delivery order with drops and replays
SCENARIO(orders) { int sc = choose(4, "scheme"), l = choose(7, "lengths"); Chan c(sc, {LN[l], LN[(l + 3) % 7], LN[(l + 5) % 7], 16}); for (int d = 0; d < (C.thorough ? 6 : 5); d++) c.deliver(c.pk[choose(4, "packet")].wire); }
// packets of another session: other MAC key, other scheme, other tag length
SCENARIO(foreign) {
  int sc = choose(4, "receiver"), so = choose(4, "sender"), k = choose(64 * 8, "difference of the MAC keys"), l = choose(7, "length"); V ak = akey(); ak[k / 8] ^= 1 << k % 8;
  Chan c(sc, {LN[l], 7}); Sender f(SCH[so], ak); Packet p = f.send(rnd(LN[l], 40)); c.deliver(p.wire); c.end();
}
SCENARIO(keylengths) { int sc = choose(4, "scheme"), n = choose(140, "MAC key length"); V k = rnd(n, 5); Sender s(SCH[sc], k); Receiver r(SCH[sc], k); V p = rnd(20, 9), o; Packet w = s.send(p); if (!r.recv(w.wire, o)) fail("a genuine packet was rejected with a %d-byte MAC key", n); eq("plaintext", o.data(), p.data(), 20); V x = w.wire; x[3] ^= 4; if (r.recv(x, o)) fail("a modified packet was accepted"); state(n); }
SCENARIO(plain) { int sc = choose(4, "scheme"), n = choose(C.thorough ? 1200 : 400, "length"); Chan c(sc, {n, 3}); c.end(); }
// long packets: a modification at every power of two and near it, at the ends, and cut or extended by such amounts
SCENARIO(long_) {
  int sc = choose(C.thorough ? 4 : 2, "scheme"), l = choose(C.thorough ? 9 : 6, "length"), k = choose(5, "kind"); static const int N[] = {65535, 65536, 70000, 4096, 131100, 32770, 300001, 1 << 20, 65537 * 8};
  Chan c(sc, {N[l], 20}); V w = c.pk[0].wire; int e = choose(k < 3 ? 21 : 12, "exponent"), d = choose(3, "offset") - 1; size_t a = ((size_t)1 << e) + d; if (a >= w.size()) a = w.size() - 1 - (a % 7);
  if (k == 0) w[a] ^= 1 << e % 8; else if (k == 1) w[w.size() - 1 - a] ^= 0x80; else if (k == 2) w.resize(a); else if (k == 3) w.erase(w.begin() + a); else w.insert(w.begin() + w.size() / 2, a, w[0]);
  c.deliver(w); c.end();
}
