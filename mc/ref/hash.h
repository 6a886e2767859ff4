// Reference models: SHA-256 (FIPS 180-4), HMAC (RFC 2104), MD5 (RFC 1321).
// Written from the standards; byte oriented and streaming, validated by selftest.cpp.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <vector>
namespace ref {
typedef uint8_t b8; typedef uint32_t b32; typedef uint64_t b64;
static inline b32 rol(b32 x, int n) { n &= 31; return n ? (x << n) | (x >> (32 - n)) : x; }
static inline b32 ror(b32 x, int n) { return rol(x, 32 - n); }
static inline b32 be32(const b8 *p) { return (b32)p[0] << 24 | (b32)p[1] << 16 | (b32)p[2] << 8 | p[3]; }
static inline b32 le32(const b8 *p) { return (b32)p[3] << 24 | (b32)p[2] << 16 | (b32)p[1] << 8 | p[0]; }
static inline void pbe32(b8 *p, b32 v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
static inline void ple32(b8 *p, b32 v) { p[3] = v >> 24; p[2] = v >> 16; p[1] = v >> 8; p[0] = v; }

struct Sha256 {
  b32 h[8]; b8 buf[64]; b64 len;
  static const b32 *K() {
    static const b32 k[64] = {
      0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
      0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
      0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
      0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
    return k;
  }
  void init() { static const b32 i[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19}; memcpy(h, i, 32); len = 0; }
  void block(const b8 *p) {
    b32 w[64];
    for (int t = 0; t < 16; t++) w[t] = be32(p + 4 * t);
    for (int t = 16; t < 64; t++) {
      b32 s0 = ror(w[t - 15], 7) ^ ror(w[t - 15], 18) ^ (w[t - 15] >> 3), s1 = ror(w[t - 2], 17) ^ ror(w[t - 2], 19) ^ (w[t - 2] >> 10);
      w[t] = s1 + w[t - 7] + s0 + w[t - 16];
    }
    b32 a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], hh = h[7];
    for (int t = 0; t < 64; t++) {
      b32 t1 = hh + (ror(e, 6) ^ ror(e, 11) ^ ror(e, 25)) + ((e & f) ^ (~e & g)) + K()[t] + w[t];
      b32 t2 = (ror(a, 2) ^ ror(a, 13) ^ ror(a, 22)) + ((a & b) ^ (a & c) ^ (b & c));
      hh = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += hh;
  }
  void update(const b8 *p, b64 n) {
    b64 f = len % 64; len += n;
    if (f) { b64 k = 64 - f < n ? 64 - f : n; memcpy(buf + f, p, k); p += k; n -= k; if (f + k == 64) block(buf); }
    while (n >= 64) { block(p); p += 64; n -= 64; }
    if (n) memcpy(buf, p, n);  // only reached with an empty buffer, or nothing left
  }
  void final(b8 *out) {
    b64 bits = len * 8; b8 z = 0x80; update(&z, 1); z = 0;
    while (len % 64 != 56) update(&z, 1);
    b8 l[8]; for (int i = 0; i < 8; i++) l[i] = bits >> (56 - 8 * i);
    update(l, 8);
    for (int i = 0; i < 8; i++) pbe32(out + 4 * i, h[i]);
  }
};
static inline void sha256(b8 *out, const b8 *m, b64 n) { Sha256 s; s.init(); s.update(m, n); s.final(out); }
static inline void hmac(b8 *out, const b8 *key, b64 kn, const b8 *m, b64 n) {
  b8 k[64] = {0}, i[64], o[64], d[32];
  if (kn > 64) sha256(k, key, kn); else if (kn) memcpy(k, key, kn);
  for (int j = 0; j < 64; j++) { i[j] = k[j] ^ 0x36; o[j] = k[j] ^ 0x5c; }
  Sha256 s; s.init(); s.update(i, 64); s.update(m, n); s.final(d);
  s.init(); s.update(o, 64); s.update(d, 32); s.final(out);
}
struct Md5 {
  b32 h[4]; b8 buf[64]; b64 len;
  void init() { h[0] = 0x67452301; h[1] = 0xefcdab89; h[2] = 0x98badcfe; h[3] = 0x10325476; len = 0; }
  static const b32 *T() {
    static b32 t[64]; static bool done = false;
    if (!done) { for (int i = 0; i < 64; i++) t[i] = (b32)(b64)floor(fabs(sin((double)(i + 1))) * 4294967296.0); done = true; }
    return t;
  }
  void block(const b8 *p) {
    static const int S[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
    const b32 *tt = T();
    b32 x[16]; for (int i = 0; i < 16; i++) x[i] = le32(p + 4 * i);
    b32 a = h[0], b = h[1], c = h[2], d = h[3];
    for (int i = 0; i < 64; i++) {
      b32 f; int k, r = i / 16;
      if (r == 0) { f = (b & c) | (~b & d); k = i; }
      else if (r == 1) { f = (b & d) | (c & ~d); k = (1 + 5 * i) % 16; }
      else if (r == 2) { f = b ^ c ^ d; k = (5 + 3 * i) % 16; }
      else { f = c ^ (b | ~d); k = (7 * i) % 16; }
      b32 nb = b + rol(a + f + x[k] + tt[i], S[r][i % 4]);
      a = d; d = c; c = b; b = nb;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d;
  }
  void update(const b8 *p, b64 n) {
    b64 f = len % 64; len += n;
    if (f) { b64 k = 64 - f < n ? 64 - f : n; memcpy(buf + f, p, k); p += k; n -= k; if (f + k == 64) block(buf); }
    while (n >= 64) { block(p); p += 64; n -= 64; }
    if (n) memcpy(buf, p, n);
  }
  void final(b8 *out) {
    b64 bits = len * 8; b8 z = 0x80; update(&z, 1); z = 0;
    while (len % 64 != 56) update(&z, 1);
    b8 l[8]; for (int i = 0; i < 8; i++) l[i] = bits >> (8 * i);
    update(l, 8);
    for (int i = 0; i < 4; i++) ple32(out + 4 * i, h[i]);
  }
};
static inline void md5(b8 *out, const b8 *m, b64 n) { Md5 s; s.init(); s.update(m, n); s.final(out); }
} // namespace ref
