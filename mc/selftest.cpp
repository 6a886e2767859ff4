// The reference models against published test vectors.  Exit 0 iff all agree.
#include "ref/aes.h"
#include "ref/des.h"
#include "ref/stream.h"
#include <cstdio>
#include <string>
using namespace ref;
static int bad = 0, n = 0;
static std::vector<b8> H(const char *s) { std::vector<b8> v; int hi = -1; for (; *s; s++) { int d = *s >= '0' && *s <= '9' ? *s - '0' : *s >= 'a' && *s <= 'f' ? *s - 'a' + 10 : *s >= 'A' && *s <= 'F' ? *s - 'A' + 10 : -1; if (d < 0) continue; if (hi < 0) hi = d; else { v.push_back(hi << 4 | d); hi = -1; } } return v; }
static void ck(const char *w, const void *g, const char *e) { auto v = H(e); n++; if (memcmp(g, v.data(), v.size())) { bad++; printf("SELFTEST FAIL %s\n got ", w); for (size_t i = 0; i < v.size(); i++) printf("%02x", ((b8 *)g)[i]); printf("\n exp %s\n", e); } }
int main() {
  b8 o[4096];
  sha256(o, (b8 *)"abc", 3); ck("sha abc", o, "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
  sha256(o, (b8 *)"", 0); ck("sha empty", o, "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855");
  { std::string s = "abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq"; sha256(o, (b8 *)s.data(), s.size()); ck("sha 56", o, "248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1"); }
  { std::vector<b8> m(1000000, 'a'); sha256(o, m.data(), m.size()); ck("sha 1e6", o, "cdc76e5c9914fb9281a1c7e284d73e67f1809a48a497200e046d39ccc7112cd0");
    md5(o, m.data(), m.size()); ck("md5 1e6", o, "7707d6ae4e027c70eea2a935c2296f21"); }
  { auto k = H("0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b"); hmac(o, k.data(), 20, (b8 *)"Hi There", 8); ck("hmac1", o, "b0344c61d8db38535ca8afceaf0bf12b881dc200c9833da726e9376c2e32cff7"); }
  hmac(o, (b8 *)"Jefe", 4, (b8 *)"what do ya want for nothing?", 28); ck("hmac2", o, "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843");
  { std::vector<b8> k(131, 0xaa); const char *m = "Test Using Larger Than Block-Size Key - Hash Key First"; hmac(o, k.data(), 131, (b8 *)m, strlen(m)); ck("hmac6", o, "60e431591ee0b67f0d8a26aacbf5b77f8e0bc6213728c5140546040f0ee37f54"); }
  hmac(o, (b8 *)"", 0, (b8 *)"", 0); ck("hmac empty", o, "b613679a0814d9ec772f95d778c35fc5ff1697c493715653c6c712144292c5ad");
  md5(o, (b8 *)"", 0); ck("md5 empty", o, "d41d8cd98f00b204e9800998ecf8427e");
  md5(o, (b8 *)"message digest", 14); ck("md5 md", o, "f96b697d7cb7938d525a2f31aaf161d0");
  { const char *m = "12345678901234567890123456789012345678901234567890123456789012345678901234567890"; md5(o, (b8 *)m, 80); ck("md5 80", o, "57edf4a22be3c955ac49da2e2107b67a"); }
  { Aes128 a; a.key(H("000102030405060708090a0b0c0d0e0f").data()); a.enc(o, H("00112233445566778899aabbccddeeff").data()); ck("aes", o, "69c4e0d86a7b0430d8cdb78070b4c55a"); }
  { AesCtr c; c.key(H("2b7e151628aed2a6abf7158809cf4f3c").data()); c.iv(H("f0f1f2f3f4f5f6f7f8f9fafb").data()); c.ctr = 0xfcfdfeff; auto p = H("6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e51"); c.pkt(o, p.data(), 32); ck("ctr sp800-38a", o, "874d6191b620e3261bef6864990db6ce9806f66b7970fdff8617187bb9fffdff"); }
  { AesCtr c; c.key(H("ae6852f8121067cc4bf7a5765577f39e").data()); c.iv(H("000000300000000000000000").data()); c.pkt(o, (b8 *)"Single block msg", 16); ck("ctr rfc3686", o, "e4095d4fb7a7b3792d6175a3261311b8"); }
  { AesCfb c; c.init(H("2b7e151628aed2a6abf7158809cf4f3c").data(), H("000102030405060708090a0b0c0d0e0f").data()); auto p = H("6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e5130c81c46a35ce411e5fbc1191a0a52eff69f2445df4f9b17ad2b417be66c3710"); c.pkt(o, p.data(), 64, false); ck("cfb128", o, "3b3fd92eb72dad20333449f8e83cfb4ac8a64537a0b3a93fcde3cdad9f1ce58b26751f67a3cbb140b1808cf187a4f4dfc04b05357c5d1c0eeac4c66f9ff7f2e6"); b8 q[64]; c.init(H("2b7e151628aed2a6abf7158809cf4f3c").data(), H("000102030405060708090a0b0c0d0e0f").data()); c.pkt(q, o, 64, true); n++; if (memcmp(q, p.data(), 64)) bad++, puts("cfb dec"); }
  { b8 z[16] = {0}, ct[64], tag[16]; Aegis128::enc(z, z, z, 0, z, 16, ct, tag); ck("aegis tv1", ct, "951b050fa72b1a2fc16d2e1f01b07d7e"); ck("aegis tv1 tag", tag, "a7d2a99773249542f422217ee888d5f1");
    Aegis128::enc(z, z, z, 16, z, 16, ct, tag); ck("aegis tv2", ct, "10b0dee65a97d751205c128a992473a1"); ck("aegis tv2 tag", tag, "46dcb9ee93c46cf13731d41b9646c131");
    auto k = H("00010000000000000000000000000000"), v = H("00000200000000000000000000000000"), a = H("00010203"), m = H("00"); 
    Aegis128::enc(k.data(), v.data(), a.data(), 4, z, 16, ct, tag); ck("aegis tv3", ct, "2b78f5c1618da39afbb2920f5dae02b0"); ck("aegis tv3 tag", tag, "74759cd0e19314650d6c635b563d80fd");
    auto k4 = H("10010000000000000000000000000000"), v4 = H("10000200000000000000000000000000"), a4 = H("0001020304050607"), m4 = H("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f");
    Aegis128::enc(k4.data(), v4.data(), a4.data(), 8, m4.data(), 32, ct, tag); ck("aegis tv4", ct, "e08ec10685d63c7364eca78ff6e1a1dd fdfc15d5311a7f2988a0471a13973fd7"); ck("aegis tv4 tag", tag, "27e84b6c4cc46cb6ece8f1f3e4aa0e78");
    b8 back[64]; n++; if (!Aegis128::dec(k4.data(), v4.data(), a4.data(), 8, ct, 32, tag, back) || memcmp(back, m4.data(), 32)) bad++, puts("aegis dec"); }
  { ChaCha c; c.init(H("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f").data(), H("000000090000004a00000000").data()); c.block(o, 1); ck("chacha block", o, "10f1e7e4d13b5915500fdd1fa32071c4c7d1f4c733c068030422aa9ac3d46c4ed2826446079faa0914c2d705d98b02a2b5129cd1de164eb9cbd083e8a2503c4e");
    b8 z[32] = {0}; c.init(z, z); c.rounds = 8; c.block(o, 0); ck("chacha8", o, "3e00ef2f895f40d67f5bb8e81f09a5a12c840ec3ce9a7f3b181be188ef711a1e"); c.rounds = 12; c.block(o, 0); ck("chacha12", o, "9bf49a6a0755f953811fce125f2683d50429c3bb49e074147e0089a52eae155f"); }
  { Hc128 h; b8 z[16] = {0}, in[64] = {0}; h.init(z, z); h.pkt(o, in, 64); ck("hc128", o, "82001573a003fd3b7fd72ffb0eaf63aac62f12deb629dca72785a66268ec758b1edb36900560898178e0ad009abf1f491330dc1c246e3d6cb264f6900271d59c");
    b8 z1[16] = {1}; h.init(z, z1); h.pkt(o, in, 32); ck("hc128 iv1", o, "d59318c058e9dbb798ec658f046617642467fc36ec6e2cc8a7381c1b952ab4c9"); }
  { Rabbit r; uint16_t k[8] = {0}; r.key(k); b32 w[4]; r.ks(w); b8 q[16]; for (int i = 0; i < 4; i++) pbe32(q + 4 * i, w[3 - i]); ck("rabbit 0", q, "b15754f036a5d6ecf56b45261c4af702"); r.ks(w); for (int i = 0; i < 4; i++) pbe32(q + 4 * i, w[3 - i]); ck("rabbit 0b", q, "88e8d815c59c0c397b696c4789c68aa7");
    auto kk = H("912813292e3d36fe3bfc62f1dc51c3ac"); for (int i = 0; i < 8; i++) k[i] = kk[15 - 2 * i] | kk[14 - 2 * i] << 8; r.key(k); r.ks(w); for (int i = 0; i < 4; i++) pbe32(q + 4 * i, w[3 - i]); ck("rabbit 1", q, "3d2df3c83ef627a1e97fc38487e2519c");
    memset(k, 0, 16); r.key(k); r.iv(0xC373F575C1267E59ULL); r.ks(w); for (int i = 0; i < 4; i++) pbe32(q + 4 * i, w[3 - i]); ck("rabbit iv", q, "1fcd4eb9580012e2e0dccc9222017d6d"); r.iv(0); r.ks(w); for (int i = 0; i < 4; i++) pbe32(q + 4 * i, w[3 - i]); ck("rabbit iv0", q, "c6a7275ef85495d87ccd5d376705b7ed"); }
  { Serpent s; b8 z[16] = {0}; s.key(z, 16); b32 x[4] = {0, 0, 0, 0}; s.enc32(x); b8 q[16]; for (int i = 0; i < 4; i++) ple32(q + 4 * i, x[i]); ck("serpent128 zero", q, "3620b17ae6a993d09618b8768266bae9"); }
  { Sosemanuk s; s.key(H("a7c083feb7").data(), 5); s.iv(H("00112233445566778899aabbccddeeff").data()); for (int i = 0; i < 4; i++) s.blk(o + 16 * i); ck("sosemanuk", o, "fe81d2162c9a100d04895c454a77515bbe6a431a935cb90e2221ebb7ef502328943539492eff6310c871054c2889cc728f82e86b1afff4334b6127a13a155c75"); }
  { Des d; d.key(0x133457799BBCDFF1ULL); b64 c = d.crypt(0x0123456789ABCDEFULL, false); n++; if (c != 0x85E813540F0AB405ULL) { bad++; printf("des %llx\n", (unsigned long long)c); } n++; if (d.crypt(c, true) != 0x0123456789ABCDEFULL) bad++, puts("des dec");
    d.key(0x0101010101010101ULL); n++; if (d.crypt(0x8000000000000000ULL, false) != 0x95F8A5E5DD31D900ULL) bad++, puts("des v1"); d.key(0x7CA110454A1A6E57ULL); n++; if (d.crypt(0x01A1D6D039776742ULL, false) != 0x690F5B0D9A26939BULL) bad++, puts("des sbox"); }
  printf("selftest: %d vectors, %d failed\n", n, bad);
  return bad != 0;
}
