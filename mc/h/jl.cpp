// Joye-Libert: exhaustive small keys, boundary messages on large keys, key generation.
#include "joye_libert.h"
#include "../core.h"
#include "../z.h"
#include "../gen.h"
using namespace mc;
struct KS { int k; long p, q; };
static std::vector<KS> keys(int kmax, long nmax) {
  std::vector<KS> v;
  for (int k = 1; k <= kmax; k++) for (long p : PR) if (p % (1L << k) == 1) for (long q : {3L, 7L, 11L, 19L, 23L, 31L}) if (q != p && p * q <= nmax) v.push_back({k, p, q});
  return v;
}
static long jac(long a, long p) { Z x(a), y(p); return mpz_jacobi(x, y); }
static std::vector<long> ys(const KS &s) { std::vector<long> v; for (long y = 2; y < s.p * s.q; y++) if (jac(y, s.p) == -1 && jac(y, s.q) == -1) v.push_back(y); return v; }
static std::vector<long> units(const KS &s) { std::vector<long> v; for (long c = 1; c < s.p * s.q; c++) if (c % s.p && c % s.q) v.push_back(c); return v; }
// discrete logarithm: the message a unit stands for under (p, y, k)
static long dlog(const Key &K, const Z &c) { Z e; Z p1 = zsub(K.p, 1); mpz_divexact(e, p1, K.ps); Z g = zpowm(K.y, e, K.p), t = zpowm(c, e, K.p), r(1); for (long m = 0; m < (1L << K.k); m++) { if (!mpz_cmp(r, t)) return m; r = zmod(zmul(r, g), K.p); } return -1; }
struct Const { Z v; mpz_srcptr o; const char *w; Const(const Z &x, const char *w_) : v(x), o(x), w(w_) {} ~Const() noexcept(false) { C.checks++; if (mpz_cmp(v, o)) fail("%s operand was modified", w); } };
static Z enc(const Key &K, const Z &m, Rs &r, bool alias = false) {
  Z c(77); int n0 = cfm; if (alias) c = m;
  { Const a(K.y, "y"), b(K.N, "N"), d(m, "message"); CALL(joye_libert_encrypt(c, r.r, alias ? c : (mpz_srcptr)m, K.y, K.N, K.k)); }
  if (mpz_sgn(c) <= 0 || mpz_cmp(c, K.N) >= 0) fail("ciphertext 0x%s is not in [1, N)", c.s().c_str());
  if (!encrypts(K, c, m)) fail("ciphertext 0x%s is not y^m times a 2^k-th power of a unit (k=%d m=0x%s y=0x%s N=0x%s x=0x%s)", c.s().c_str(), K.k, m.s().c_str(), K.y.s().c_str(), K.N.s().c_str(), lastm->s().c_str());
  if (cfm > n0) eqz("ciphertext for the drawn randomiser", c, zmod(zmul(zpowm(K.y, m, K.N), zpowm(*lastm, K.ps, K.N)), K.N));
  return c;
}
static Z dec(const Key &K, const Z &c) { Z m(123456789); { Const a(c, "ciphertext"), b(K.p, "p"), d(K.y, "y"); CALL(joye_libert_decrypt(m, c, K.p, K.y, K.k)); } return m; }
static KS pickkey(int kmax, long nmax) { static std::vector<KS> v; static long m0; if (v.empty() || m0 != nmax) v = keys(kmax, nmax), m0 = nmax; return v[choose((int)v.size(), "key")]; }
struct Cache { KS s{}; std::vector<long> y, u; void get(const KS &t) { if (t.k != s.k || t.p != s.p || t.q != s.q) { s = t; y = ys(t); u = units(t); } } };
static Cache cc;
// C19: every key, y, message and randomiser
SCENARIO(small) {
  z_begin(); KS s = pickkey(5, C.thorough ? 400 : 200); cc.get(s); long y = cc.y[choose((int)cc.y.size(), "y")]; if (!C.thorough && s.p * s.q > 100 && cc.y.size() > 12 && y % 3) { state(y); return; }
  int m = choose(1 << s.k, "message"); long x = cc.u[choose((int)cc.u.size(), "randomiser")];
  Key K = small_key(s.k, s.p, s.q, y); Rs r(1); feedm(Z(x)); Z c = enc(K, Z(m), r); eqz("decryption", dec(K, c), Z(m)); state(mix64(mix64(s.p * 1000 + s.q, y), m * 100000 + x));
}
// randomisers that are zero or share a factor with N must be redrawn
SCENARIO(redraw) {
  z_begin(); KS s = pickkey(5, 200); cc.get(s); long y = cc.y[cc.y.size() / 2]; int m = choose(1 << s.k, "message"); long N = s.p * s.q; int a = choose((int)N, "first draw"), b = choose(3, "second draw");
  Key K = small_key(s.k, s.p, s.q, y); Rs r(1); feedm(Z(a)); feedm(Z(b == 0 ? 0 : b == 1 ? s.p : s.q)); feedm(Z(cc.u[1])); Z c = enc(K, Z(m), r, b == 2); eqz("decryption", dec(K, c), Z(m)); state(mix64(mix64(N, a), m * 100 + b));
}
// every unit decrypts to its discrete logarithm
SCENARIO(decall) {
  z_begin(); KS s = pickkey(8, C.thorough ? 20000 : 6000); cc.get(s); long y = cc.y[choose(cc.y.size() < 6 ? (int)cc.y.size() : 6, "y")]; long c = cc.u[choose((int)cc.u.size(), "ciphertext")];
  Key K = small_key(s.k, s.p, s.q, y); eqz("decryption", dec(K, Z(c)), Z(dlog(K, Z(c)))); state(mix64(mix64(s.p * 1000 + s.q, y), c));
}
// long runs of draws that have to be redrawn
SCENARIO(redraws) {
  z_begin(); KS s = pickkey(4, 120); cc.get(s); int m = choose(1 << s.k, "message"), n = choose(C.thorough ? 390 : 300, "bad draws"), kind = choose(3, "bad draw"); if (!C.thorough && n > 70 && n % 16 > 1) { state(n); return; }
  Key K = small_key(s.k, s.p, s.q, cc.y[0]); Rs r(1); for (int i = 0; i < n; i++) feedm(Z(kind == 0 || (kind == 2 && i % 3 == 0) ? 0 : kind == 1 || i % 3 == 1 ? s.p : s.q)); feedm(Z(cc.u[n % cc.u.size()])); Z c = enc(K, Z(m), r); eqz("decryption", dec(K, c), Z(m)); state(mix64(mix64(s.p * 1000 + s.q, n), m * 4 + kind));
}
struct BK { int k, pb, qb; };
static const BK BKS[] = {{2, 40, 40}, {8, 64, 64}, {32, 64, 256}, {2, 40, 200}, {65, 128, 100}, {264, 330, 128}, {64, 96, 512}, {31, 48, 80}, {32, 64, 64}, {32, 256, 256}, {64, 128, 128}, {128, 256, 200}, {96, 128, 64}, {16, 512, 512}, {136, 200, 128}, {160, 256, 130}, {192, 256, 100}, {256, 320, 192}, {33, 80, 64}, {1, 48, 48}, {7, 30, 30}, {63, 100, 100}, {384, 448, 128}, {520, 600, 128}, {32, 1024, 1024}, {160, 300, 300}, {64, 1024, 1024}, {256, 512, 512}, {400, 800, 800}, {1000, 1100, 300}};
static const int NBKS = sizeof BKS / sizeof *BKS;
static Key bigk(int i) { return big_key(BKS[i].k, BKS[i].pb, BKS[i].qb, 7 + i); }
static int nbm(int k) { return 4 * k + 10; }
static Z bmsg(int k, int i) {
  Z r; if (i < k) return zpow2(i); i -= k; if (i < k) return zsub(zpow2(i), 1); i -= k; if (i < k) return zmod(zadd(zpow2(i), 1), zpow2(k)); i -= k; if (i < k) return zsub(zsub(zpow2(k), 1), zpow2(i)); i -= k;
  if (i == 0) return zsub(zpow2(k), 1); if (i == 1) return Z(0); return zrnd(4000 + i, k);
}
SCENARIO(big) {
  z_begin(); int b = choose(C.thorough ? NBKS : 23, "key"); int i = choose(nbm(BKS[b].k), "message"), al = choose(2, "result is the message operand");
  Key K = bigk(b); Rs r(i); Z m = bmsg(K.k, i), c = enc(K, m, r, al); eqz("decryption", dec(K, c), m); state(mix64(b, i));
}
// ---- C20
SCENARIO(addall) { // every pair of ciphertexts
  z_begin(); KS s = pickkey(5, C.thorough ? 250 : 130); cc.get(s); long y = cc.y[choose(2) ? cc.y.size() - 1 : 0]; long a = cc.u[choose((int)cc.u.size())], b = cc.u[choose((int)cc.u.size())];
  Key K = small_key(s.k, s.p, s.q, y); long ma = dlog(K, Z(a)), mb = dlog(K, Z(b)); Z c = zmod(zmul(Z(a), Z(b)), K.N);
  eqz("decryption of the product", dec(K, c), Z((ma + mb) & ((1 << s.k) - 1))); state(mix64(mix64(s.p * 1000 + s.q, y), a * 10000 + b));
}
SCENARIO(mulall) { // every ciphertext and multiplier
  z_begin(); KS s = pickkey(6, C.thorough ? 800 : 300); cc.get(s); long y = cc.y[0]; long a = cc.u[choose((int)cc.u.size())]; int e = choose((1 << s.k) + 12, "multiplier") - 6;
  Key K = small_key(s.k, s.p, s.q, y); long ma = dlog(K, Z(a)); Z c = zpowm(Z(a), Z(e), K.N); eqz("decryption of the power", dec(K, c), Z((ma * (e + (16L << s.k))) & ((1 << s.k) - 1))); state(mix64(mix64(s.p * 1000 + s.q, a), e + 100));
}
SCENARIO(encadd) { // fresh encryptions: every pair of messages and randomisers
  z_begin(); static const KS T[] = {{1, 5, 3}, {2, 5, 3}, {2, 13, 7}, {3, 17, 7}, {3, 41, 3}, {4, 17, 11}}; KS s = T[choose(6, "key")]; cc.get(s); int m1 = choose(1 << s.k), m2 = choose(1 << s.k); size_t st = C.thorough ? 1 : 1 + cc.u.size() / 24; long x1 = cc.u[choose((int)(cc.u.size() / st)) * st], x2 = cc.u[choose((int)(cc.u.size() / st)) * st];
  Key K = small_key(s.k, s.p, s.q, cc.y[0]); Rs r(1); feedm(Z(x1)); feedm(Z(x2)); Z a = enc(K, Z(m1), r), b = enc(K, Z(m2), r); eqz("decryption of the sum", dec(K, zmod(zmul(a, b), K.N)), Z((m1 + m2) & ((1 << s.k) - 1))); state(mix64(mix64(m1, x1), mix64(m2, x2) + s.p));
}
static void tree(const Key &K, std::vector<Z> pool, std::vector<Z> val, int depth) {
  Rs r(5);
  for (int d = 0; d < depth; d++) {
    int n = pool.size(), nc = 4, w = choose(n * (n + 1) / 2 + n * nc + 2, "operation"); Z c, v;
    if (w < n * (n + 1) / 2) { int i = 0; while (w > i) { w -= i + 1; i++; } logf("  add %d %d", i, w); c = zmod(zmul(pool[i], pool[w]), K.N); v = zadd(val[i], val[w]); }
    else if ((w -= n * (n + 1) / 2) < n * nc) { int i = w / nc; Z e = w % nc == 0 ? Z(-1) : w % nc == 1 ? Z(3) : w % nc == 2 ? zsub(K.ps, 2) : Z(0); logf("  times %s", e.s().c_str()); c = zpowm(pool[i], e, K.N); v = zmul(val[i], e); }
    else { w -= n * nc; Z m = w ? zsub(K.ps, 1) : Z(0); logf("  add an encryption of %s", m.s().c_str()); c = zmod(zmul(pool[n - 1], enc(K, m, r)), K.N); v = zadd(val[n - 1], m); }
    v = zmod(v, K.ps); eqz("decryption of the expression", dec(K, c), v); pool.push_back(c); val.push_back(v); state(mix64(v.h(), c.h()));
  }
}
SCENARIO(trees) { z_begin(); static const KS T[] = {{2, 13, 7}, {3, 17, 7}, {4, 17, 11}, {1, 7, 3}}; KS s = T[choose(4, "key")]; cc.get(s); Key K = small_key(s.k, s.p, s.q, cc.y[0]); int m1 = choose(1 << s.k), m2 = choose(1 << s.k); Rs r(1); tree(K, {enc(K, Z(m1), r), enc(K, Z(m2), r)}, {Z(m1), Z(m2)}, C.thorough ? 4 : 3); }
SCENARIO(bigtrees) { z_begin(); int b = choose(C.thorough ? 23 : 16, "key"); Key K = bigk(b); int i = choose(4), j = choose(4); Rs r(9); auto mm = [&](int i) { return i == 0 ? zsub(K.ps, 1) : i == 1 ? zpow2(K.k - 1) : i == 2 ? Z(1) : zrnd(77, K.k); }; Z a = mm(i), c = mm(j); tree(K, {enc(K, a, r), enc(K, c, r)}, {a, c}, C.thorough ? 3 : 2); }
SCENARIO(bigadd) { z_begin(); int b = choose(C.thorough ? 23 : 18, "key"); int n = nbm(BKS[b].k), i = choose(n), j = choose(C.thorough ? n : 12); Key K = bigk(b); Rs r(3); Z m1 = bmsg(K.k, i), m2 = bmsg(K.k, C.thorough ? j : n - 12 + j); Z a = enc(K, m1, r), c = enc(K, m2, r); eqz("decryption of the sum", dec(K, zmod(zmul(a, c), K.N)), zmod(zadd(m1, m2), K.ps)); state(mix64(mix64(b, i), j)); }
// ---- C21
static void ckkey(int k, int ks, const Z &N, const Z &y, const Z &p, bool roundtrip) {
  if (mpz_sgn(p) <= 0 || !mpz_divisible_p(N, p)) fail("p does not divide N (p=0x%s N=0x%s)", p.s().c_str(), N.s().c_str());
  Z q; mpz_divexact(q, N, p); Z p1 = zsub(p, 1), e;
  if (!mpz_probab_prime_p(p, 30) || !mpz_probab_prime_p(q, 30) || mpz_even_p(q)) fail("p=0x%s or q=0x%s is not an odd prime", p.s().c_str(), q.s().c_str());
  if (mpz_tstbit(q, 1) == 0) fail("q=0x%s is not 3 mod 4", q.s().c_str());
  if (!mpz_divisible_2exp_p(p1, k)) fail("p=0x%s is not 1 mod 2^%d", p.s().c_str(), k);
  mpz_fdiv_q_2exp(e, p1, k); if (!mpz_probab_prime_p(e, 30)) fail("(p-1)/2^k is not prime for p=0x%s", p.s().c_str());
  if (k >= 2 && !mpz_cmp(p, q)) fail("p and q are equal");
  if (mpz_sgn(y) <= 0 || mpz_cmp(y, N) >= 0 || !nonres(y, p, q)) fail("y=0x%s is not a non-residue modulo p=0x%s and q=0x%s", y.s().c_str(), p.s().c_str(), q.s().c_str());
  if (cfb >= 2) {
    auto ok = [&](int i) { return mpz_cmp(zadd(p, zpow2(k)), drawb[i]) > 0 && mpz_cmp(q, drawb[1 - i]) >= 0; };
    if (!ok(0) && !ok(1)) fail("p=0x%s, q=0x%s do not come from the drawn starts 0x%s, 0x%s", p.s().c_str(), q.s().c_str(), drawb[0].s().c_str(), drawb[1].s().c_str());
  }
  int nb = mpz_sizeinbase(N, 2);
  if (k + 16 <= ks / 2 && ks >= 64) { if (nb > ks + 2 || nb < ks - 40) fail("N has %d bits, %d were requested", nb, ks); }
  if (roundtrip) {
    Key K; K.k = k; K.N = N; K.y = y; K.p = p; K.q = q; K.ps = zpow2(k); Rs r(2);
    int n = k <= 6 ? 1 << k : 12; for (int i = 0; i < n; i++) { Z m = k <= 6 ? Z(i) : i < 4 ? bmsg(k, k + i * (k / 4)) : i < 8 ? zpow2(k - (i - 3)) : zrnd(i, k); eqz("decryption under the generated key", dec(K, enc(K, m, r)), m); }
  }
}
SCENARIO(keygen_draws) { // every outcome of the two random starts
  z_begin(); int k = 1 + choose(C.thorough ? 6 : 4, "message size"), kb = (C.thorough ? 3 : 3) + choose(C.thorough ? 6 : 4, "bits of each prime"), a = choose(1 << kb, "p start"), b = choose(1 << kb, "q start");
  feedb(Z(a)); feedb(Z(b)); Z N, y, p; CALL(joye_libert_keygen(N, y, p, k, 2 * kb)); ckkey(k, 2 * kb, N, y, p, true); state(mix64(N.h(), y.h() + k));
}
SCENARIO(keygen_y) { // every first draw of y
  z_begin(); int k = 1 + choose(4, "message size"), a = choose(16), b = choose(16); Z N, y, p; feedb(Z(a)); feedb(Z(b)); CALL(joye_libert_keygen(N, y, p, k, 8)); ckkey(k, 8, N, y, p, false); Z N0 = N;
  int lim = (int)mpz_get_ui(N); if (lim > 3000) lim = 3000; int v = choose(lim, "first y"); cfm = cfb = 0; feedm(Z(v)); Z y2, p2; CALL(joye_libert_keygen(N, y2, p2, k, 8)); ckkey(k, 8, N, y2, p2, false); eqz("N", N, N0); Z q; mpz_divexact(q, N, p2);
  if (nonres(Z(v), p2, q) && cfm == 1) eqz("y is the first valid draw", y2, Z(v)); state(mix64(N.h(), y2.h() + v));
}
SCENARIO(keygen_yrun) { // long runs of unsuitable draws of y: 0, 1, residues modulo one or both primes
  z_begin(); int k = 1 + choose(3, "message size"), a = choose(8), b = choose(8); Z N, y, p; feedb(Z(2 * a)); feedb(Z(2 * b)); CALL(joye_libert_keygen(N, y, p, k, 8)); ckkey(k, 8, N, y, p, false); Z q, N0 = N, p0 = p; mpz_divexact(q, N, p);
  std::vector<Z> bad; for (int v = 0; v < (int)mpz_get_ui(N) && bad.size() < 60; v++) if (!nonres(Z(v), p, q)) bad.push_back(Z(v));
  int n = choose(C.thorough ? 390 : 300, "bad draws"); if (!C.thorough && n > 70 && n % 16 > 1) { state(n); return; }
  cfm = cfb = 0; for (int i = 0; i < n; i++) feedm(bad[(i * 7 + a) % bad.size()]); feedm(y); Z y2, p2; CALL(joye_libert_keygen(N, y2, p2, k, 8)); ckkey(k, 8, N, y2, p2, false); eqz("N", N, N0); state(mix64(N.h(), mix64(y2.h(), n)));
}
struct GS { int k, ks; };
SCENARIO(keygen_seeds) {
  z_begin(); static const GS G[] = {{2, 64}, {8, 64}, {16, 64}, {32, 64}, {32, 128}, {64, 128}, {48, 256}, {32, 256}, {128, 256}, {32, 384}, {64, 512}, {128, 512}, {32, 768}};
  GS g = G[choose(C.thorough ? 13 : 10, "sizes")]; int s = choose(C.thorough ? 150 : 24, "generator seed"); seed_mt = s; Z N, y, p; CALL(joye_libert_keygen(N, y, p, g.k, g.ks)); ckkey(g.k, g.ks, N, y, p, s < 8); state(mix64(N.h(), y.h()));
}
SCENARIO(keygen_sizes) { z_begin(); int k = 1 + choose(C.thorough ? 70 : 40, "message size"), ks = 2 * (16 + choose(C.thorough ? 40 : 20, "prime size")); seed_mt = 3; Z N, y, p; CALL(joye_libert_keygen(N, y, p, k, ks)); ckkey(k, ks, N, y, p, true); state(mix64(N.h(), y.h() + k)); }
SCENARIO(keygen_fresh) { // two key generations must not give the same key
  z_begin(); int k = 2 + 10 * choose(3), ks = 128 + 64 * choose(2); Z N, y, p, N2, y2, p2; CALL(joye_libert_keygen(N, y, p, k, ks)); ckkey(k, ks, N, y, p, false); cfb = cfm = 0; CALL(joye_libert_keygen(N2, y2, p2, k, ks)); ckkey(k, ks, N2, y2, p2, false); state(N.h());
  if (!mpz_cmp(N, N2) && !mpz_cmp(p, p2)) finding("keygen-same-key", "joye_libert_keygen seeds its generator with a constant: every key generation of one size yields the same key pair");
}
// ---- sessions: one party's generator and key with what it has encrypted
struct JSess : Sess {
  Rs r; Key S, K; std::vector<Z> m, c; b64 h = 1; int n = 0;
  // who 0 and 1 share the small public key and have large keys of their own
  explicit JSess(int who) : r(40 + who), S(small_key(4, 113, 7, 0)) { for (long y = 2;; y++) if (nonres(Z(y), S.p, S.q)) { S.y = Z(y); break; } K = bigk(who); n = 10 * who; push(K, zrnd(who + 5, K.k), zrnd(who + 6, 60)); }
  void push(const Key &k, const Z &v, const Z &x) { m.push_back(v); c.push_back(zmod(zmul(zpowm(k.y, v, k.N), zpowm(x, k.ps, k.N)), k.N)); }
  int nops() const { return 7; }
  std::string nm(int k) const { static const char *T[] = {"encrypt under the shared small key", "encrypt under the large key", "encrypt over the message operand", "decrypt", "add and decrypt", "generate a key", "encrypt 0"}; return T[k]; }
  void op(int k) {
    n++;
    if (k == 0) { Z x((n * 5) & 15), e = enc(S, x, r); eqz("decryption", ::dec(S, e), x); h = mix64(h, x.h()); }
    else if (k == 1 || k == 2 || k == 6) { Z x = k == 6 ? Z(0) : zmod(zrnd(n, K.k), K.ps), e = enc(K, x, r, k == 2); m.push_back(x); c.push_back(e); h = mix64(h, x.h()); }
    else if (k == 3) eqz("decryption", ::dec(K, c.back()), m.back());
    else if (k == 4) { Z p = zmod(zmul(c.back(), c[0]), K.N); eqz("decryption of the sum", ::dec(K, p), zmod(zadd(m.back(), m[0]), K.ps)); }
    else { cfb = cfm = nfm = nfb = 0; feedb(Z(n * 37 % 200)); feedb(Z(n * 59 % 200)); Z N, y, p; CALL(joye_libert_keygen(N, y, p, 3, 16)); ckkey(3, 16, N, y, p, true); h = mix64(h, N.h()); nfb = nfm = 0; }
  }
  b64 fp() const { return mix64(h, c.back().h()); }
};
static Sess *mk(int who) { return new JSess(who); }
SCENARIO(interleave) { z_begin(); g_interleave(mk, C.thorough ? 4 : 3); }
#ifdef MC_SCHED
SCENARIO(sched) { z_begin(); g_sched(mk); }
#endif
