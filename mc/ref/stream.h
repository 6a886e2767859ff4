// Reference models: ChaCha (RFC 8439), HC-128, Rabbit (RFC 4503), Serpent, Sosemanuk.
#pragma once
#include "hash.h"
namespace ref {
struct ChaCha {
  b32 k[8], n[3]; int rounds = 20;
  void init(const b8 *key, const b8 *nonce) { for (int i = 0; i < 8; i++) k[i] = le32(key + 4 * i); for (int i = 0; i < 3; i++) n[i] = le32(nonce + 4 * i); }
  static void qr(b32 &a, b32 &b, b32 &c, b32 &d) { a += b; d = rol(d ^ a, 16); c += d; b = rol(b ^ c, 12); a += b; d = rol(d ^ a, 8); c += d; b = rol(b ^ c, 7); }
  void block(b8 *o, b32 ctr) const {
    b32 s[16] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574}, x[16];
    memcpy(s + 4, k, 32); s[12] = ctr; memcpy(s + 13, n, 12); memcpy(x, s, 64);
    for (int r = 0; r < rounds; r += 2) {
      for (int i = 0; i < 4; i++) qr(x[i], x[4 + i], x[8 + i], x[12 + i]);
      for (int i = 0; i < 4; i++) qr(x[i], x[4 + (i + 1) % 4], x[8 + (i + 2) % 4], x[12 + (i + 3) % 4]);
    }
    for (int i = 0; i < 16; i++) ple32(o + 4 * i, x[i] + s[i]);
  }
  void pkt(b8 *o, const b8 *in, b64 len) const {
    b8 ks[64]; b32 c = 1;
    for (b64 i = 0; i < len; i += 64) { block(ks, c++); for (b64 j = i; j < len && j < i + 64; j++) o[j] = in[j] ^ ks[j - i]; }
  }
};
struct Hc128 {
  b32 P[512], Q[512]; b32 t;
  static b32 f1(b32 x) { return ror(x, 7) ^ ror(x, 18) ^ (x >> 3); }
  static b32 f2(b32 x) { return ror(x, 17) ^ ror(x, 19) ^ (x >> 10); }
  b32 h1(b32 x) const { return Q[x & 255] + Q[256 + (x >> 16 & 255)]; }
  b32 h2(b32 x) const { return P[x & 255] + P[256 + (x >> 16 & 255)]; }
  b32 next() {
    b32 j = t & 511, s;
    auto m = [](b32 a, int d) { return (a - d) & 511; };
    if ((t & 1023) < 512) { P[j] += (ror(P[m(j, 3)], 10) ^ ror(P[(j + 1) & 511], 23)) + ror(P[m(j, 10)], 8); s = h1(P[m(j, 12)]) ^ P[j]; }
    else { Q[j] += (rol(Q[m(j, 3)], 10) ^ rol(Q[(j + 1) & 511], 23)) + rol(Q[m(j, 10)], 8); s = h2(Q[m(j, 12)]) ^ Q[j]; }
    t++; return s;
  }
  void init(const b8 *key, const b8 *iv) {
    std::vector<b32> W(1280);
    for (int i = 0; i < 8; i++) { W[i] = le32(key + 4 * (i & 3)); W[8 + i] = le32(iv + 4 * (i & 3)); }
    for (int i = 16; i < 1280; i++) W[i] = f2(W[i - 2]) + W[i - 7] + f1(W[i - 15]) + W[i - 16] + i;
    for (int i = 0; i < 512; i++) { P[i] = W[256 + i]; Q[i] = W[768 + i]; }
    t = 0;
    for (int i = 0; i < 512; i++) { b32 s = next(); P[i] = s; }
    for (int i = 0; i < 512; i++) { b32 s = next(); Q[i] = s; }
    t = 0;
  }
  void pkt(b8 *o, const b8 *in, b64 n) {
    for (b64 i = 0; i < n; i += 4) { b8 k[4]; ple32(k, next()); for (b64 j = i; j < n && j < i + 4; j++) o[j] = in[j] ^ k[j - i]; }
  }
};
// Rabbit on integers: K = k0..k7 16-bit subkeys, IV as 64-bit integer, output S as 4 words (S[31..0] first)
struct Rabbit {
  struct St { b32 x[8], c[8]; b32 b; } master, s;
  static b32 g(b32 u, b32 v) { b64 t = (b32)(u + v); t *= t; return (b32)(t ^ (t >> 32)); }
  static void nextstate(St &s) {
    static const b32 A[8] = {0x4D34D34D, 0xD34D34D3, 0x34D34D34, 0x4D34D34D, 0xD34D34D3, 0x34D34D34, 0x4D34D34D, 0xD34D34D3};
    for (int j = 0; j < 8; j++) { b64 t = (b64)s.c[j] + A[j] + s.b; s.b = (b32)(t >> 32); s.c[j] = (b32)t; }
    b32 G[8]; for (int j = 0; j < 8; j++) G[j] = g(s.x[j], s.c[j]);
    b32 *x = s.x;
    x[0] = G[0] + rol(G[7], 16) + rol(G[6], 16); x[1] = G[1] + rol(G[0], 8) + G[7];
    x[2] = G[2] + rol(G[1], 16) + rol(G[0], 16); x[3] = G[3] + rol(G[2], 8) + G[1];
    x[4] = G[4] + rol(G[3], 16) + rol(G[2], 16); x[5] = G[5] + rol(G[4], 8) + G[3];
    x[6] = G[6] + rol(G[5], 16) + rol(G[4], 16); x[7] = G[7] + rol(G[6], 8) + G[5];
  }
  void key(const uint16_t k[8]) {
    auto cat = [&](int a, int b) { return (b32)k[a & 7] << 16 | k[b & 7]; };
    for (int j = 0; j < 8; j++) {
      if (j % 2 == 0) { master.x[j] = cat(j + 1, j); master.c[j] = cat(j + 4, j + 5); }
      else { master.x[j] = cat(j + 5, j + 4); master.c[j] = cat(j, j + 1); }
    }
    master.b = 0;
    for (int i = 0; i < 4; i++) nextstate(master);
    for (int j = 0; j < 8; j++) master.c[j] ^= master.x[(j + 4) & 7];
    s = master;
  }
  void iv(b64 v) {
    s = master;
    b32 lo = (b32)v, hi = (b32)(v >> 32), a = (hi & 0xffff0000u) | (lo >> 16), b = (hi << 16) | (lo & 0xffff);
    for (int h = 0; h < 8; h += 4) { s.c[h] ^= lo; s.c[h + 1] ^= a; s.c[h + 2] ^= hi; s.c[h + 3] ^= b; }
    for (int i = 0; i < 4; i++) nextstate(s);
  }
  void ks(b32 out[4]) {
    nextstate(s); const b32 *x = s.x;
    uint16_t w[8];
    w[0] = (x[0] & 0xffff) ^ (x[5] >> 16); w[1] = (x[0] >> 16) ^ (x[3] & 0xffff);
    w[2] = (x[2] & 0xffff) ^ (x[7] >> 16); w[3] = (x[2] >> 16) ^ (x[5] & 0xffff);
    w[4] = (x[4] & 0xffff) ^ (x[1] >> 16); w[5] = (x[4] >> 16) ^ (x[7] & 0xffff);
    w[6] = (x[6] & 0xffff) ^ (x[3] >> 16); w[7] = (x[6] >> 16) ^ (x[1] & 0xffff);
    for (int i = 0; i < 4; i++) out[i] = (b32)w[2 * i + 1] << 16 | w[2 * i];
  }
};
struct Serpent {
  b32 k[33][4];
  static const b8 (*SB())[16] {
    static const b8 s[8][16] = {
      {3,8,15,1,10,6,5,11,14,13,4,2,7,0,9,12},{15,12,2,7,9,0,5,10,1,11,14,8,6,13,3,4},{8,6,7,9,3,12,10,15,13,1,14,4,0,11,5,2},{0,15,11,8,12,9,6,3,13,1,2,4,10,7,5,14},
      {1,15,8,3,12,0,11,6,2,5,4,10,9,14,7,13},{15,5,2,11,4,10,9,12,0,3,14,8,13,6,7,1},{7,2,12,5,8,4,6,11,14,9,1,15,13,3,10,0},{1,13,15,0,14,8,2,11,7,4,12,10,9,3,5,6}};
    return s;
  }
  static void sbox(int n, b32 x[4]) {
    // for every value v, the bit positions whose four bits are v
    b32 y[4] = {0, 0, 0, 0}, lo[4], hi[4]; const b8 *s = SB()[n & 7];
    for (int v = 0; v < 4; v++) { lo[v] = (v & 1 ? x[0] : ~x[0]) & (v & 2 ? x[1] : ~x[1]); hi[v] = (v & 1 ? x[2] : ~x[2]) & (v & 2 ? x[3] : ~x[3]); }
    for (int v = 0; v < 16; v++) { b32 at = lo[v & 3] & hi[v >> 2]; for (int j = 0; j < 4; j++) if (s[v] >> j & 1) y[j] |= at; }
    memcpy(x, y, 16);
  }
  static void lt(b32 x[4]) {
    x[0] = rol(x[0], 13); x[2] = rol(x[2], 3); x[1] ^= x[0] ^ x[2]; x[3] ^= x[2] ^ (x[0] << 3);
    x[1] = rol(x[1], 1); x[3] = rol(x[3], 7); x[0] ^= x[1] ^ x[3]; x[2] ^= x[3] ^ (x[1] << 7);
    x[0] = rol(x[0], 5); x[2] = rol(x[2], 22);
  }
  void key(const b8 *key, int n) {
    b8 kk[32] = {0}; if (n) memcpy(kk, key, n); if (n < 32) kk[n] = 1;
    b32 w[140]; for (int i = 0; i < 8; i++) w[i] = le32(kk + 4 * i);
    for (int i = 0; i < 132; i++) w[i + 8] = rol(w[i] ^ w[i + 3] ^ w[i + 5] ^ w[i + 7] ^ 0x9e3779b9u ^ (b32)i, 11);
    for (int i = 0; i < 33; i++) { memcpy(k[i], w + 8 + 4 * i, 16); sbox((3 - i) & 7, k[i]); }
  }
  void mix(b32 *x, int i) const { for (int j = 0; j < 4; j++) x[j] ^= k[i][j]; }
  void enc32(b32 x[4]) const { for (int r = 0; r < 32; r++) { mix(x, r); sbox(r, x); if (r < 31) lt(x); } mix(x, 32); }
  // outputs after 12 and 18 rounds (with linear transform), and Serpent24 including the 25th subkey
  void enc24(const b32 in[4], b32 y12[4], b32 y18[4], b32 y24[4]) const {
    b32 x[4]; memcpy(x, in, 16);
    for (int r = 0; r < 24; r++) { mix(x, r); sbox(r, x); lt(x); if (r == 11) memcpy(y12, x, 16); if (r == 17) memcpy(y18, x, 16); }
    mix(x, 24); memcpy(y24, x, 16);
  }
};
struct Sosemanuk {
  Serpent sp; b32 s[10], r1, r2;
  static b8 mulb(b8 a, b8 b) { b8 r = 0; for (int i = 0; i < 8; i++) { if (b & 1) r ^= a; b >>= 1; a = (b8)(a << 1) ^ (a & 0x80 ? 0xA9 : 0); } return r; }
  struct Tab { b32 mul[256], div[256]; Tab() {
      b8 pw[255]; b8 x = 1; for (int i = 0; i < 255; i++) { pw[i] = x; x = mulb(x, 2); }
      for (int c = 0; c < 256; c++) {
        mul[c] = (b32)mulb(c, pw[23]) << 24 | (b32)mulb(c, pw[245]) << 16 | (b32)mulb(c, pw[48]) << 8 | mulb(c, pw[239]);
        div[c] = (b32)mulb(c, pw[16]) << 24 | (b32)mulb(c, pw[39]) << 16 | (b32)mulb(c, pw[6]) << 8 | mulb(c, pw[64]);
      } } };
  static const Tab &T() { static const Tab t; return t; }
  void key(const b8 *k, int n) { sp.key(k, n); }
  void iv(const b8 *v) {
    b32 in[4], a[4], b[4], c[4]; for (int i = 0; i < 4; i++) in[i] = le32(v + 4 * i);
    sp.enc24(in, a, b, c);
    // s[0] is s_1
    s[6] = a[3]; s[7] = a[2]; s[8] = a[1]; s[9] = a[0];
    s[4] = b[1]; s[5] = b[3]; r1 = b[0]; r2 = b[2];
    s[0] = c[3]; s[1] = c[2]; s[2] = c[1]; s[3] = c[0];
  }
  void blk(b8 *o) {
    b32 f[4], d[4];
    for (int i = 0; i < 4; i++) {
      // FSM at time t uses s_{t+1}, s_{t+8}, s_{t+9}; s[0] holds s_t
      b32 m = r1 & 1 ? s[1] ^ s[8] : s[1], n1 = r2 + m, n2 = rol(r1 * 0x54655307u, 7);
      r1 = n1; r2 = n2; f[i] = (s[9] + r1) ^ r2; d[i] = s[0];
      b32 nw = s[9] ^ (s[3] >> 8) ^ T().div[s[3] & 255] ^ (s[0] << 8) ^ T().mul[s[0] >> 24];
      memmove(s, s + 1, 36); s[9] = nw;
    }
    Serpent::sbox(2, f);
    for (int i = 0; i < 4; i++) ple32(o + 4 * i, f[i] ^ d[i]);
  }
};
} // namespace ref
