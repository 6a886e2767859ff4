// Reference models: AES-128 (FIPS 197, and its 6-round reduction), CTR, CFB-128, AEGIS-128 v1.1.
#pragma once
#include "hash.h"
namespace ref {
struct AesTab {
  b8 s[256], m2[256], m3[256];
  b32 T[4][256];   // SubBytes and MixColumns of one byte, for the four rows, as a little-endian column
  AesTab() {
    // S-box from its definition: inversion in GF(2^8) mod 0x11b and the affine map
    b8 p = 1, q = 1;
    do {
      p = p ^ (p << 1) ^ (p & 0x80 ? 0x1B : 0);
      q ^= q << 1; q ^= q << 2; q ^= q << 4; if (q & 0x80) q ^= 0x09;
      b8 x = q ^ (b8)(q << 1 | q >> 7) ^ (b8)(q << 2 | q >> 6) ^ (b8)(q << 3 | q >> 5) ^ (b8)(q << 4 | q >> 4);
      s[p] = x ^ 0x63;
    } while (p != 1);
    s[0] = 0x63;
    for (int i = 0; i < 256; i++) { m2[i] = (i << 1) ^ (i & 0x80 ? 0x1b : 0); m3[i] = m2[i] ^ i; }
    for (int i = 0; i < 256; i++) for (int r = 0; r < 4; r++) {
      b32 col[4] = {s[i], s[i], s[i], s[i]}; col[r] = m2[s[i]]; col[(r + 3) & 3] = m3[s[i]];
      T[r][i] = col[0] | col[1] << 8 | col[2] << 16 | col[3] << 24;
    }
  }
};
static inline const AesTab &AT() { static const AesTab t; return t; }
// one full AES round without key: MixColumns(ShiftRows(SubBytes(x)))
static inline void aes_rnd(b8 *o, const b8 *x) {
  const AesTab &t = AT(); b32 r[4];
  for (int c = 0; c < 4; c++) r[c] = t.T[0][x[4 * c]] ^ t.T[1][x[4 * ((c + 1) & 3) + 1]] ^ t.T[2][x[4 * ((c + 2) & 3) + 2]] ^ t.T[3][x[4 * ((c + 3) & 3) + 3]];
  memcpy(o, r, 16);
}
static inline void xor16(b8 *o, const b8 *a) { b64 x[2], y[2]; memcpy(x, o, 16); memcpy(y, a, 16); x[0] ^= y[0]; x[1] ^= y[1]; memcpy(o, x, 16); }
struct Aes128 {
  b8 rk[11][16]; int rounds = 10;
  void key(const b8 *k, int r = 10) {
    rounds = r; b8 *w = rk[0]; memcpy(w, k, 16); b8 rc = 1;
    for (int i = 16; i < 176; i += 4) {
      b8 t[4]; memcpy(t, w + i - 4, 4);
      if (i % 16 == 0) { b8 u = t[0]; t[0] = AT().s[t[1]] ^ rc; t[1] = AT().s[t[2]]; t[2] = AT().s[t[3]]; t[3] = AT().s[u]; rc = rc << 1 ^ (rc & 0x80 ? 0x1b : 0); }
      for (int j = 0; j < 4; j++) w[i + j] = w[i + j - 16] ^ t[j];
    }
  }
  // r < 10: the round-reduced variant of the toolbox: the initial key, then the last r round keys
  void enc(b8 *o, const b8 *in) const {
    b8 s[16], q[16];
    for (int i = 0; i < 16; i++) s[i] = in[i] ^ rk[0][i];
    for (int r = 11 - rounds; r < 10; r++) { aes_rnd(s, s); xor16(s, rk[r]); }
    for (int c = 0; c < 4; c++) for (int j = 0; j < 4; j++) q[4 * c + j] = AT().s[s[4 * ((c + j) & 3) + j]];
    for (int i = 0; i < 16; i++) o[i] = q[i] ^ rk[10][i];
  }
};
struct AesCtr {
  Aes128 a; b8 nonce[12]; b32 ctr; bool keyed = false, ived = false;
  void key(const b8 *k, int rounds = 10) { a.key(k, rounds); keyed = true; }
  void iv(const b8 *n) { memcpy(nonce, n, 12); ctr = 1; ived = true; }
  void pkt(b8 *o, const b8 *in, b64 n) {
    b8 cb[16], ks[16];
    for (b64 i = 0; i < n; i += 16) {
      memcpy(cb, nonce, 12); pbe32(cb + 12, ctr++); a.enc(ks, cb);
      for (b64 j = i; j < n && j < i + 16; j++) o[j] = in[j] ^ ks[j - i];
    }
  }
  b64 fp() const { b64 h = ctr; for (int i = 0; i < 12; i++) h = h * 1099511628211ULL ^ nonce[i]; for (int i = 0; i < 16; i++) h = h * 1099511628211ULL ^ a.rk[0][i]; return h; }
};
struct AesCfb {
  Aes128 a; b8 reg[16];
  void init(const b8 *k, const b8 *iv, int rounds = 10) { a.key(k, rounds); memcpy(reg, iv, 16); }
  void pkt(b8 *o, const b8 *in, b64 n, bool dec) {
    b8 ks[16];
    for (b64 i = 0; i < n; i += 16) {
      b64 m = n - i < 16 ? n - i : 16; b8 ct[16];
      a.enc(ks, reg);
      for (b64 j = 0; j < m; j++) { b8 x = in[i + j], y = x ^ ks[j]; ct[j] = dec ? x : y; o[i + j] = y; }
      memmove(reg, reg + m, 16 - m); memcpy(reg + 16 - m, ct, m);
    }
  }
  b64 fp() const { b64 h = a.rounds; for (int i = 0; i < 16; i++) h = h * 1099511628211ULL ^ reg[i]; for (int i = 0; i < 16; i++) h = h * 1099511628211ULL ^ a.rk[0][i]; return h; }
};
struct Aegis128 {
  b8 s[5][16];
  void upd(const b8 *m) {
    b8 n[5][16];
    for (int i = 0; i < 5; i++) { aes_rnd(n[i], s[(i + 4) % 5]); xor16(n[i], s[i]); }
    xor16(n[0], m); memcpy(s, n, 80);
  }
  void init(const b8 *k, const b8 *iv) {
    static const b8 c0[16] = {0,1,1,2,3,5,8,0x0d,0x15,0x22,0x37,0x59,0x90,0xe9,0x79,0x62}, c1[16] = {0xdb,0x3d,0x18,0x55,0x6d,0xc2,0x2f,0xf1,0x20,0x11,0x31,0x42,0x73,0xb5,0x28,0xdd};
    b8 ki[16];
    for (int i = 0; i < 16; i++) { ki[i] = k[i] ^ iv[i]; s[0][i] = ki[i]; s[1][i] = c1[i]; s[2][i] = c0[i]; s[3][i] = k[i] ^ c0[i]; s[4][i] = k[i] ^ c1[i]; }
    for (int i = 0; i < 5; i++) { upd(k); upd(ki); }
  }
  void ad(const b8 *a, b64 n) { for (b64 i = 0; i < n; i += 16) { b8 b[16] = {0}; memcpy(b, a + i, n - i < 16 ? n - i : 16); upd(b); } }
  void msg(b8 *o, const b8 *in, b64 n, bool dec) {
    for (b64 i = 0; i < n; i += 16) {
      b64 m = n - i < 16 ? n - i : 16; b8 p[16] = {0};
      if (m == 16) {
        b64 z[2], u[2]; memcpy(z, s[2], 16); memcpy(u, s[3], 16); z[0] &= u[0]; z[1] &= u[1]; xor16((b8 *)z, s[1]); xor16((b8 *)z, s[4]);
        memcpy(u, in + i, 16); memcpy(p, u, 16); xor16((b8 *)u, (b8 *)z); memcpy(o + i, u, 16); if (dec) memcpy(p, u, 16);
      }
      else for (b64 j = 0; j < m; j++) { b8 z = s[1][j] ^ s[4][j] ^ (s[2][j] & s[3][j]); b8 x = in[i + j]; o[i + j] = x ^ z; p[j] = dec ? x ^ z : x; }
      upd(p);
    }
  }
  void fin(b8 *tag, b64 adn, b64 mn) {
    b8 t[16]; b64 A = adn * 8, M = mn * 8;
    for (int i = 0; i < 8; i++) { t[i] = A >> (8 * i); t[8 + i] = M >> (8 * i); }
    for (int i = 0; i < 16; i++) t[i] ^= s[3][i];
    for (int i = 0; i < 7; i++) upd(t);
    for (int i = 0; i < 16; i++) tag[i] = s[0][i] ^ s[1][i] ^ s[2][i] ^ s[3][i] ^ s[4][i];
  }
  static void enc(const b8 *k, const b8 *iv, const b8 *a, b64 an, const b8 *m, b64 mn, b8 *ct, b8 *tag) { Aegis128 x; x.init(k, iv); x.ad(a, an); x.msg(ct, m, mn, false); x.fin(tag, an, mn); }
  static bool dec(const b8 *k, const b8 *iv, const b8 *a, b64 an, const b8 *c, b64 cn, const b8 *tag, b8 *pt) {
    Aegis128 x; b8 t[16]; x.init(k, iv); x.ad(a, an); x.msg(pt, c, cn, true); x.fin(t, an, cn);
    if (!memcmp(t, tag, 16)) return true;
    if (cn) memset(pt, 0, cn);
    return false;
  }
};
} // namespace ref
