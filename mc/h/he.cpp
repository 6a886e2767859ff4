// Labeled homomorphic encryption (single user; -DMU: multi user).  Real code in lockstep with
// plain integer arithmetic modulo 2^k.
#ifdef MU
#include "mu_labeled_he.h"
#define H(x) mu_he_##x
#else
#include "labeled_he.h"
#define H(x) he_##x
#endif
#undef ROTR_32
#undef ROTL_32
#include "joye_libert.h"
#include "../ref/stream.h"
#include "../core.h"
#include "../z.h"
#include "../gen.h"
#include <malloc.h>
using namespace mc;
struct Const { Z v; mpz_srcptr o; const char *w; Const(const Z &x, const char *w_) : v(x), o(x), w(w_) {} Const(mpz_srcptr x, const char *w_) : o(x), w(w_) { mpz_set(v, x); } ~Const() noexcept(false) { C.checks++; if (mpz_cmp(v, o)) fail("%s operand was modified", w); } };
struct KB { int k, pb, qb; };
static const KB KBS[] = {{32, 72, 64}, {64, 100, 64}, {96, 128, 96}, {128, 200, 100}, {256, 320, 128}, {32, 512, 512}, {160, 256, 200}, {512, 600, 300}};
static Key bkey(int i) { return big_key(KBS[i].k, KBS[i].pb, KBS[i].qb, 20 + i); }
// ---- one PRF session, the real one and the model
struct Prf {
  hc128_state st; ref::Hc128 r;
  Prf(b64 tag) { auto k = rnd(16, 300 + tag), v = rnd(16, 400 + tag); memset(&st, IO.fill, sizeof st); hc128_initialize(&st, k.data(), v.data()); r.init(k.data(), v.data()); }
  Prf(const b8 *k, const b8 *v) { std::vector<b8> a(k, k + 16), b(v, v + 16); hc128_initialize(&st, a.data(), b.data()); r.init(k, v); }
  Z mask(const Z &label, int k) {   // label as big-endian byte string, XOR keystream, read as native words, first word most significant
    int n = k / 8; std::vector<b8> a(n + 1, 0), o(n + 1); size_t c = 0; size_t len = mpz_sgn(label) ? (mpz_sizeinbase(label, 2) + 7) / 8 : 0;
    mpz_export(a.data() + (n - len), &c, 1, 1, 1, 0, label); r.pkt(o.data(), a.data(), n);
    Z b; for (int i = 0; i < n; i += 4) { mpz_mul_2exp(b, b, 32); mpz_add_ui(b, b, ref::le32(o.data() + i)); } return b;
  }
};
// ---- a ciphertext with the values it stands for; level 1: (a, beta), level 2: alpha
struct Ct { he_ct c; Z v, b; };
struct A2 { Z c, v, b; };
static Z dec(const Key &K, mpz_srcptr c) { Z m(99); CALL(joye_libert_decrypt(m, c, K.p, K.y, K.k)); return m; }
static void unit(const Key &K, mpz_srcptr c, const char *w) { if (mpz_sgn(c) <= 0 || mpz_cmp(c, K.N) >= 0) fail("%s is not in [1, N)", w); }
static void ck1(const Key &K, const Ct &x, const char *w) {
  if (mpz_sgn(x.c.a) < 0 || mpz_cmp(x.c.a, K.ps) >= 0) fail("%s: component a is not in [0, 2^k)", w);
  unit(K, x.c.beta, w); Z a; mpz_set(a, x.c.a); eqz(w, zmod(zadd(a, x.b), K.ps), x.v);
  Z bt; mpz_set(bt, x.c.beta); if (!encrypts(K, bt, x.b)) fail("%s: beta is not an encryption of the mask 0x%s", w, x.b.s().c_str());
  Z m(5); { Const p(x.c.a, "a"), q(x.c.beta, "beta"), r(K.p, "p"), s(K.y, "y"); CALL(H(decrypt)(m, &x.c, K.p, K.y, K.k)); } eqz(w, m, x.v);
  state(mix64(x.v.h(), mix64(x.b.h(), hashb(mpz_limbs_read(x.c.beta), 8 * mpz_size(x.c.beta)))));
}
static void ck2(const Key &K, const A2 &x, const char *w) {
  unit(K, x.c, w); Z m(5); { Const a(x.c, "ciphertext"), b(x.b, "b"), p(K.p, "p"), y(K.y, "y"); CALL(H(decrypt)(m, x.c, x.b, K.p, K.y, K.k)); } eqz(w, m, x.v);
  if (!encrypts(K, x.c, zmod(zsub(x.v, x.b), K.ps))) fail("%s: not an encryption", w);
  state(mix64(x.v.h(), mix64(x.b.h(), x.c.h())));
}
// real encryption under a label
static Ct *lenc(const Key &K, Prf &f, Rs &r, const Z &m, const Z &label) {
  Ct *x = new Ct; Z b(3); mpz_set_ui(x->c.a, 12345); mpz_set_ui(x->c.beta, 54321); Z eb = f.mask(label, K.k);
  { Const cm(m, "message"), cl(label, "label"), cy(K.y, "y"), cn(K.N, "N"); CALL(H(encrypt)(&x->c, r.r, &f.st, b, m, K.y, K.N, label, K.k)); }
  eqz("mask for the label", b, eb); x->v = zmod(m, K.ps); x->b = b;
  Z a; mpz_set(a, x->c.a); eqz("online component", a, zmod(zsub(m, b), K.ps)); Z bt; mpz_set(bt, x->c.beta); eqz("decryption of beta", dec(K, bt), b);
  ck1(K, *x, "fresh ciphertext"); return x;
}
// a ciphertext with a given mask (small rings, where label encryption does not apply)
static Ct *mkct(const Key &K, Rs &r, const Z &m, const Z &b) { Ct *x = new Ct; x->v = m; x->b = b; mpz_set(x->c.a, zmod(zsub(m, b), K.ps)); CALL(joye_libert_encrypt(x->c.beta, r.r, b, K.y, K.N, K.k)); ck1(K, *x, "fresh ciphertext"); return x; }
// ---- the operations
struct Frozen { Const a, b; Frozen(const Ct &x) : a(x.c.a, "a component of an"), b(x.c.beta, "beta component of an") {} };
static Ct *add1(const Key &K, const Ct &x, const Ct &y, bool sub) {
  Ct *z = new Ct; z->v = zmod(sub ? zsub(x.v, y.v) : zadd(x.v, y.v), K.ps); z->b = zmod(sub ? zsub(x.b, y.b) : zadd(x.b, y.b), K.ps); mpz_set_si(z->c.a, 7); mpz_set_si(z->c.beta, 9);
  { Frozen f(x), g(y); if (sub) CALL(H(eval_sub)(&z->c, &x.c, &y.c, K.N, K.k)); else CALL(H(eval_add)(&z->c, &x.c, &y.c, K.N, K.k)); } ck1(K, *z, sub ? "difference" : "sum"); return z;
}
static Ct *cmul1(const Key &K, const Ct &x, const Z &e) { Ct *z = new Ct; z->v = zmod(zmul(x.v, e), K.ps); z->b = zmod(zmul(x.b, e), K.ps); mpz_set_si(z->c.a, 7); { Frozen f(x); Const c(e, "constant"); CALL(H(eval_cmult)(&z->c, &x.c, e, K.N, K.k)); } ck1(K, *z, "constant multiple"); return z; }
static A2 *mul1(const Key &K, Rs &r, const Ct &x, const Ct &y) { A2 *z = new A2; z->v = zmod(zmul(x.v, y.v), K.ps); z->b = zmod(zmul(x.b, y.b), K.ps); { Frozen f(x), g(y); Const a(K.y, "y"), b(K.N, "N"); CALL(H(eval_mult)(z->c, r.r, &x.c, &y.c, K.y, K.N, K.k)); } ck2(K, *z, "product"); return z; }
static Z encb(const Key &K, Rs &r, const Z &b1, const Z &b2) { Z c, t = zmod(zmul(b1, b2), K.ps); CALL(joye_libert_encrypt(c, r.r, t, K.y, K.N, K.k)); return c; }
static A2 *mul3(const Key &K, Rs &r, const Ct &x, const Ct &y, const Ct &w) {
  A2 *z = new A2; z->v = zmod(zmul(zmul(x.v, y.v), w.v), K.ps); z->b = zmod(zmul(zmul(x.b, y.b), w.b), K.ps); Z b12 = encb(K, r, x.b, y.b), b13 = encb(K, r, x.b, w.b), b23 = encb(K, r, y.b, w.b);
  { Frozen f(x), g(y), h(w); Const c(b12, "beta12"), d(b13, "beta13"), e(b23, "beta23"); CALL(H(eval_mult_3)(z->c, r.r, &x.c, &y.c, &w.c, b12, b13, b23, K.y, K.N, K.k)); } ck2(K, *z, "product of three"); return z;
}
static A2 *add2(const Key &K, const A2 &x, const A2 &y, bool sub) { A2 *z = new A2; z->v = zmod(sub ? zsub(x.v, y.v) : zadd(x.v, y.v), K.ps); z->b = zmod(sub ? zsub(x.b, y.b) : zadd(x.b, y.b), K.ps); { Const a(x.c, "first"), b(y.c, "second"); if (sub) CALL(H(eval_sub)(z->c, x.c, y.c, K.N)); else CALL(H(eval_add)(z->c, x.c, y.c, K.N)); } ck2(K, *z, sub ? "difference of products" : "sum of products"); return z; }
static A2 *cmul2(const Key &K, const A2 &x, const Z &e) { A2 *z = new A2; z->v = zmod(zmul(x.v, e), K.ps); z->b = zmod(zmul(x.b, e), K.ps); { Const a(x.c, "ciphertext"), b(e, "constant"); CALL(H(eval_cmult)(z->c, x.c, e, K.N)); } ck2(K, *z, "constant multiple of a product"); return z; }
template <class T> struct Own { std::vector<T *> v; ~Own() { for (auto *x : v) { delete x; } } void push(T *x) { v.push_back(x); } T &operator[](size_t i) { return *v[i]; } int n() { return v.size(); } };
// ---- encryption
static Z lbl(int k, int i) {   // label values of every byte length
  int n = k / 8, len = i / 4, kind = i % 4; if (len > n) len = n;
  if (!len) return Z(0); Z r; if (kind == 0) return zpow2(8 * len - 8); if (kind == 1) return zsub(zpow2(8 * len), 1); if (kind == 2) { r = zrnd(900 + len, 8 * len); mpz_setbit(r, 8 * len - 1); return r; } return zpow2(8 * len - 1);
}
static Z msg(int k, int i) { switch (i) { case 0: return Z(0); case 1: return Z(1); case 2: return zpow2(k - 1); case 3: return zsub(zpow2(k), 1); case 4: return zrnd(55, k); case 5: return zsub(zpow2(k - 1), 1); default: return zrnd(56 + i, k - i); } }
SCENARIO(enc) {
  z_begin(); int ki = choose(C.thorough ? 8 : 6, "key"); Key K = bkey(ki); int i = choose(4 * (K.k / 8) + 4, "label"), m = choose(C.thorough ? 9 : 5, "message"), pre = choose(3, "encryptions before"), s = choose(2, "PRF key"); if (ki > 4 && (i % 4 != 1 || pre)) { state(i); return; }
  Prf f(s); Rs r(i + 1); Own<Ct> o; for (int j = 0; j < pre; j++) o.push(lenc(K, f, r, msg(K.k, j), Z(5 + j))); o.push(lenc(K, f, r, msg(K.k, m), lbl(K.k, i)));
}
SCENARIO(labelbytes) { z_begin(); static const int KI[] = {0, 1, 3}; Key K = bkey(KI[choose(3, "key")]); int p = choose(K.k / 8, "position"), v = choose(256, "value"), bg = choose(2, "background"); Z l = bg ? zrnd(7, K.k) : Z(0), x(v); for (int i = 0; i < 8; i++) mpz_clrbit(l, 8 * p + i); mpz_mul_2exp(x, x, 8 * p); l = zadd(l, x); Prf f(1); Rs r(3); Own<Ct> o; o.push(lenc(K, f, r, Z(v), l)); }
SCENARIO(messages) { z_begin(); static const int KI[] = {0, 1, 3}; Key K = bkey(KI[choose(3, "key")]); int i = choose(K.k, "bit"), s = choose(4, "shape"); Z m = s == 0 ? zpow2(i) : s == 1 ? zsub(zpow2(i), 1) : s == 2 ? zsub(zsub(K.ps, 1), zpow2(i)) : zrnd(i, i + 1); Prf f(1); Z b; { Prf g(1); b = g.mask(Z(i), K.k); } Rs r(3); Own<Ct> o; o.push(lenc(K, f, r, m, Z(i))); Prf f2(1); o.push(lenc(K, f2, r, zmod(zadd(b, Z(s - 1)), K.ps), Z(i))); }
// sequences of encryptions over several PRF sessions and message sizes
SCENARIO(history) {
  z_begin(); Key K0 = bkey(0), K1 = bkey(1); Prf f0(0), f1(1); Rs r(8); Own<Ct> o;
  for (int d = 0; d < (C.thorough ? 5 : 4); d++) { int op = choose(9, "operation"); logf("  op %d", op); if (op == 8) { f0.~Prf(); new (&f0) Prf(2 + d); continue; } bool w = op & 1; const Key &K = op & 2 ? K1 : K0; o.push(lenc(K, w ? f1 : f0, r, msg(K.k, d + 3 * w), op & 4 ? zsub(K.ps, d + 1) : Z(d))); }
  for (int i = 0; i < o.n(); i++) ck1(mpz_sizeinbase(o[i].b, 2) > 32 || mpz_cmp(o[i].c.beta, K0.N) >= 0 ? K1 : K0, o[i], "ciphertext at the end");
}
// the same encryption and evaluations over different contents of stack, heap and state
SCENARIO(memory) {
  static const int P[] = {0x00, 0xFE, 0x80, 0x01, 0xA5, 0xFF}; int ps = P[choose(6, "stack")], ph = P[choose(6, "heap")], pf = P[choose(3, "state object")], ki = choose(3, "key"), li = choose(8, "label");
  z_begin(); Key K = bkey(ki); ar_fill = ph; IO.poison = ps; IO.fill = pf; mallopt(M_PERTURB, (unsigned char)~ph);
  Prf f(0); Rs r(4); Own<Ct> o; o.push(lenc(K, f, r, msg(K.k, li % 5), lbl(K.k, li))); o.push(lenc(K, f, r, msg(K.k, 4), lbl(K.k, li + 4))); o.push(add1(K, o[0], o[1], false)); o.push(add1(K, o[0], o[1], true)); o.push(cmul1(K, o[1], Z(3)));
  Own<A2> q; q.push(mul1(K, r, o[2], o[1])); q.push(mul3(K, r, o[0], o[1], o[3])); q.push(add2(K, q[0], q[1], true)); q.push(add2(K, q[0], q[1], false)); q.push(cmul2(K, q[3], Z(5))); mallopt(M_PERTURB, PERTURB);
}
// ---- evaluation, exhaustively over small rings
static const struct { int k; long p, q, y; } SK[] = {{1, 7, 3, 0}, {2, 13, 7, 0}, {2, 29, 3, 0}, {3, 41, 7, 0}, {3, 137, 11, 0}, {4, 113, 7, 0}};
static Key skey(int i) { auto &s = SK[i]; long y = 2; for (;; y++) { Z a(y), p(s.p), q(s.q); if (nonres(a, p, q)) break; } return small_key(s.k, s.p, s.q, y); }
SCENARIO(ring1) { // every pair of messages and masks: sum, difference, product
  z_begin(); int ki = choose(C.thorough ? 6 : 5, "key"); Key K = skey(ki); int n = 1 << K.k; int m1 = choose(n, "m1"), b1 = choose(n, "b1"), m2 = choose(n, "m2"), b2 = choose(n, "b2"); Rs r(m1 * 64 + b2 + 1); Own<Ct> o; Own<A2> q;
  o.push(mkct(K, r, Z(m1), Z(b1))); o.push(mkct(K, r, Z(m2), Z(b2))); o.push(add1(K, o[0], o[1], false)); o.push(add1(K, o[0], o[1], true)); q.push(mul1(K, r, o[0], o[1])); q.push(mul1(K, r, o[0], o[0]));
  q.push(add2(K, q[0], q[1], false)); q.push(add2(K, q[0], q[1], true));
}
SCENARIO(ringc) { // every message, mask and constant
  z_begin(); Key K = skey(choose(6, "key")); int n = 1 << K.k; int m = choose(n, "message"), b = choose(n, "mask"), e = choose(2 * n + 6, "constant") - n; Rs r(b + 1); Own<Ct> o; Own<A2> q; o.push(mkct(K, r, Z(m), Z(b))); o.push(cmul1(K, o[0], Z(e))); q.push(mul1(K, r, o[0], o[0])); q.push(cmul2(K, q[0], Z(e)));
}
SCENARIO(ring3) { z_begin(); int ki = choose(C.thorough ? 5 : 4, "key"); Key K = skey(ki); int n = 1 << K.k; int m1 = choose(n), b1 = choose(n), m2 = choose(n), b2 = choose(n), m3 = choose(n), b3 = choose(n); Rs r(m1 + 1); Own<Ct> o; Own<A2> q; o.push(mkct(K, r, Z(m1), Z(b1))); o.push(mkct(K, r, Z(m2), Z(b2))); o.push(mkct(K, r, Z(m3), Z(b3))); q.push(mul3(K, r, o[0], o[1], o[2])); }
// every program over the offered operations
static void program(const Key &K, Rs &r, Own<Ct> &o, int depth) {
  Own<A2> q; static const int CE[] = {3, -1, 0};
  for (int d = 0; d < depth; d++) {
    int n = o.n(), m = q.n(), nc = 3;
    int tot = n * n * 2 + n * nc + n * n + 4 + m * m * 2 + m * nc, w = choose(tot, "operation");
    auto take = [&](int c) { if (w < c) return true; w -= c; return false; };
    if (take(n * n)) { logf("  %d+%d", w / n, w % n); o.push(add1(K, o[w / n], o[w % n], false)); }
    else if (take(n * n)) { logf("  %d-%d", w / n, w % n); o.push(add1(K, o[w / n], o[w % n], true)); }
    else if (take(n * nc)) { logf("  %d*const", w / nc); int e = CE[w % nc]; o.push(cmul1(K, o[w / nc], e ? Z(e) : zsub(K.ps, 2))); }
    else if (take(n * n)) { logf("  %d*%d", w / n, w % n); q.push(mul1(K, r, o[w / n], o[w % n])); }
    else if (take(4)) { int a = w & 1 ? n - 1 : 0, c = w & 2 ? n - 1 : 1; logf("  %d*%d*%d", a, 1, c); q.push(mul3(K, r, o[a], o[1], o[c])); }
    else if (take(m * m)) { logf("  [%d]+[%d]", w / m, w % m); q.push(add2(K, q[w / m], q[w % m], false)); }
    else if (take(m * m)) { logf("  [%d]-[%d]", w / m, w % m); q.push(add2(K, q[w / m], q[w % m], true)); }
    else { logf("  [%d]*const", w / nc); int e = CE[w % nc]; q.push(cmul2(K, q[w / nc], e ? Z(e) : zsub(K.ps, 2))); }
  }
}
SCENARIO(programs) { z_begin(); Key K = skey(2 + 2 * choose(2, "key")); int in = choose(6, "inputs"); Rs r(7); Own<Ct> o; int n = 1 << K.k; o.push(mkct(K, r, Z((in + 1) % n), Z((5 * in + 3) % n))); o.push(mkct(K, r, Z((2 * n - 1 - in) % n), Z((3 * in + 2) % n))); program(K, r, o, C.thorough ? 4 : 3); }
SCENARIO(bigprograms) { z_begin(); int ki = choose(C.thorough ? 5 : 4, "key"); Key K = bkey(ki); int i = choose(4), j = choose(4); Prf f(0), g(1); Rs r(7); Own<Ct> o; o.push(lenc(K, f, r, msg(K.k, i + 1), lbl(K.k, 5))); o.push(lenc(K, choose(2) ? g : f, r, msg(K.k, j + 2), lbl(K.k, 9))); program(K, r, o, C.thorough ? 3 : 2); }
// result object is also an operand
SCENARIO(alias) {
  z_begin(); int ki = choose(4, "key"); Key K = ki < 2 ? skey(2 + 2 * ki) : bkey(ki - 2); Rs r(7); int m1 = choose(4), m2 = choose(4), op = choose(12, "operation"); Z b1 = zrnd(1 + m1, K.k), b2 = zrnd(9 + m2, K.k); Own<Ct> o; o.push(mkct(K, r, zmod(msg(K.k, m1), K.ps), b1)); o.push(mkct(K, r, zmod(msg(K.k, m2), K.ps), b2)); Ct &x = o[0], &y = o[1]; auto N = [&](const Z &z) { return zmod(z, K.ps); };
  if (op == 0) { CALL(H(eval_add)(&x.c, &x.c, &y.c, K.N, K.k)); x.v = N(zadd(x.v, y.v)); x.b = N(zadd(x.b, y.b)); } else if (op == 1) { CALL(H(eval_add)(&x.c, &y.c, &x.c, K.N, K.k)); x.v = N(zadd(x.v, y.v)); x.b = N(zadd(x.b, y.b)); }
  else if (op == 2) { CALL(H(eval_add)(&x.c, &x.c, &x.c, K.N, K.k)); x.v = N(zadd(x.v, x.v)); x.b = N(zadd(x.b, x.b)); } else if (op == 3) { CALL(H(eval_sub)(&x.c, &x.c, &y.c, K.N, K.k)); x.v = N(zsub(x.v, y.v)); x.b = N(zsub(x.b, y.b)); }
  else if (op == 4) { CALL(H(eval_sub)(&x.c, &y.c, &x.c, K.N, K.k)); x.v = N(zsub(y.v, x.v)); x.b = N(zsub(y.b, x.b)); } else if (op == 5) { CALL(H(eval_sub)(&x.c, &x.c, &x.c, K.N, K.k)); x.v = Z(0); x.b = Z(0); }
  else if (op == 6) { Z e(3); CALL(H(eval_cmult)(&x.c, &x.c, e, K.N, K.k)); x.v = N(zmul(x.v, e)); x.b = N(zmul(x.b, e)); }
  else { Own<A2> q; q.push(mul1(K, r, x, y)); q.push(mul1(K, r, x, x)); A2 &a = q[0], &b = q[1]; Z av = a.v, ab = a.b;
    if (op == 7) { CALL(H(eval_add)(a.c, a.c, b.c, K.N)); a.v = N(zadd(av, b.v)); a.b = N(zadd(ab, b.b)); } else if (op == 8) { CALL(H(eval_add)(a.c, b.c, a.c, K.N)); a.v = N(zadd(av, b.v)); a.b = N(zadd(ab, b.b)); } else if (op == 9) { CALL(H(eval_sub)(a.c, a.c, b.c, K.N)); a.v = N(zsub(av, b.v)); a.b = N(zsub(ab, b.b)); }
    else if (op == 10) { CALL(H(eval_sub)(a.c, b.c, a.c, K.N)); a.v = N(zsub(b.v, av)); a.b = N(zsub(b.b, ab)); } else { Z e(-3); CALL(H(eval_cmult)(a.c, a.c, e, K.N)); a.v = N(zmul(av, e)); a.b = N(zmul(ab, e)); }
    ck2(K, a, "result over its operand"); ck2(K, b, "other operand"); }
  ck1(K, x, "result over its operand"); ck1(K, y, "other operand");
}
#ifdef MU
SCENARIO(setup) { z_begin(); int k = 32 * (1 + choose(2)), s = choose(4, "generator seed"); seed_mt = s; Z N, y, p; CALL(H(setup)(N, y, p, k, 4 * k)); Key K; K.k = k; K.N = N; K.y = y; K.p = p; K.ps = zpow2(k); if (mpz_sgn(p) <= 0 || !mpz_divisible_p(N, p)) fail("p does not divide N"); mpz_divexact(K.q, N, p); if (!nonres(y, p, K.q)) fail("y is a residue"); Prf f(0); Rs r(3); Own<Ct> o; Own<A2> q; o.push(lenc(K, f, r, msg(k, 3), Z(9))); o.push(lenc(K, f, r, msg(k, 4), Z(10))); q.push(mul1(K, r, o[0], o[1])); }
static Z kb(int i) { switch (i) { case 0: return Z(0); case 1: return Z(1); case 2: return zpow2(31); case 3: return zpow2(32); case 4: return zpow2(127); case 5: return zsub(zpow2(128), 1); case 6: return zpow2(64); default: return zrnd(70 + i, 128); } }
SCENARIO(userkeys) { // user secret keys: full 128 bits, encrypted to the server, and usable as PRF keys
  z_begin(); int ki = choose(C.thorough ? 7 : 5, "key"); Key K = bkey(ki); int i = choose(12, "drawn user key"), j = choose(12, "second user's"); Rs r(5); feedb(kb(i)); feedb(kb(j)); Z upk[2], usk[2];
  for (int u = 0; u < 2; u++) { { Const a(K.N, "N"), b(K.y, "y"); CALL(H(keygen)(upk[u], usk[u], r.r, K.N, K.y, K.k)); } eqz("user secret key", usk[u], kb(u ? j : i)); unit(K, upk[u], "user public key"); eqz("decryption of the user public key", dec(K, upk[u]), zmod(usk[u], K.ps)); }
  if (cfb == 2) { if (nbits_asked[0] != 128 || nbits_asked[1] != 128) fail("user key drawn with %d bits", (int)nbits_asked[0]); } state(mix64(i, j));
}
SCENARIO(users) { // users with keys derived from usk encrypt in every order; programs across them
  z_begin(); int ki = choose(3, "key"); Key K = bkey(ki); Rs r(9); std::vector<Prf> f; Z usk[3]; for (int u = 0; u < 3; u++) { Z upk; CALL(H(keygen)(upk, usk[u], r.r, K.N, K.y, K.k)); b8 k[16] = {0}, v[16] = {0}; size_t c; if (mpz_sizeinbase(usk[u], 256) > 16) fail("user key longer than 128 bits"); mpz_export(k, &c, 1, 1, 0, 0, usk[u]); f.emplace_back(k, v); }
  if (!mpz_cmp(usk[0], usk[1]) || !mpz_cmp(usk[0], usk[2]) || !mpz_cmp(usk[1], usk[2])) fail("two users drew the same key from one generator");
  Own<Ct> o; for (int d = 0; d < 3; d++) { int u = choose(3, "user"); logf("  user %d", u); o.push(lenc(K, f[u], r, msg(K.k, choose(4, "message") + 1), lbl(K.k, 4 * d + 2 + u))); }
  Own<A2> q; q.push(mul1(K, r, o[0], o[1])); q.push(mul1(K, r, o[1], o[2])); q.push(mul3(K, r, o[0], o[1], o[2])); q.push(add2(K, q[0], q[2], false)); q.push(add2(K, q[3], q[1], true)); o.push(add1(K, o[0], o[2], true)); o.push(add1(K, o[3], o[1], false)); q.push(mul1(K, r, o[4], o[2])); q.push(mul3(K, r, o[4], o[1], o[3]));
}
#else
SCENARIO(keygen) { z_begin(); int k = 32 * (1 + choose(2)), s = choose(4, "generator seed"); seed_mt = s; Z N, y, p; CALL(H(keygen)(N, y, p, k, 4 * k)); Key K; K.k = k; K.N = N; K.y = y; K.p = p; K.ps = zpow2(k); if (mpz_sgn(p) <= 0 || !mpz_divisible_p(N, p)) fail("p does not divide N"); mpz_divexact(K.q, N, p); if (!nonres(y, p, K.q)) fail("y is a residue"); Prf f(0); Rs r(3); Own<Ct> o; Own<A2> q; o.push(lenc(K, f, r, msg(k, 3), Z(9))); o.push(lenc(K, f, r, msg(k, 4), Z(10))); q.push(mul1(K, r, o[0], o[1])); }
#endif
// ---- sessions: a user with a PRF state, a generator and ciphertexts of their own; the public key is shared
struct HSess : Sess {
  Key K; Prf f; Rs r; Own<Ct> o; Own<A2> q; int n; b64 h = 3;
  explicit HSess(int who) : K(bkey(0)), f(who), r(60 + who), n(20 * who) { o.push(mkct(K, r, zrnd(n + 1, 32), zrnd(n + 2, 32))); o.push(mkct(K, r, zrnd(n + 3, 32), zrnd(n + 4, 32))); }
  int nops() const { return 10; }
  bool can(int k) const { return k < 7 || q.v.size() > 0; }
  std::string nm(int k) const { static const char *T[] = {"encrypt", "add", "subtract", "constant multiple", "multiply", "multiply three", "draw a key", "add products", "subtract products", "constant multiple of a product"}; return T[k]; }
  void op(int k) {
    n++; int l = o.n() - 1; Z e = zrnd(n, 32);
    if (k == 0) o.push(lenc(K, f, r, zrnd(n + 500, 32), zrnd(n + 600, 24)));
    else if (k == 1 || k == 2) o.push(add1(K, o[l], o[l - 1], k == 2));
    else if (k == 3) o.push(cmul1(K, o[l], e));
    else if (k == 4) q.push(mul1(K, r, o[l], o[0]));
    else if (k == 5) q.push(mul3(K, r, o[l], o[0], o[1]));
    else if (k == 6) {
#ifdef MU
      Z upk, usk; cfb = nfb = 0; feedb(zrnd(n + 700, 128)); CALL(H(keygen)(upk, usk, r.r, K.N, K.y, K.k)); eqz("user secret key", usk, zrnd(n + 700, 128)); eqz("decryption of the user public key", dec(K, upk), zmod(usk, K.ps)); nfb = 0; h = mix64(h, usk.h());
#else
      cfb = cfm = nfm = nfb = 0; feedb(Z(n * 37 % 200)); feedb(Z(n * 59 % 200)); Z N, y, p; CALL(H(keygen)(N, y, p, 3, 16)); if (mpz_sgn(p) <= 0 || !mpz_divisible_p(N, p)) fail("p does not divide N"); Z p2; mpz_divexact(p2, N, p); if (!nonres(y, p, p2)) fail("y is a residue"); nfb = 0; h = mix64(h, N.h());
#endif
    }
    else if (k == 9) q.push(cmul2(K, q[q.n() - 1], e));
    else q.push(add2(K, q[q.n() - 1], q[0], k == 8));
    if (k < 4) h = mix64(h, o.v.back()->v.h()); else if (k != 6) h = mix64(h, q.v.back()->v.h());
  }
  b64 fp() const { return h; }
};
static Sess *mk(int who) { return new HSess(who); }
SCENARIO(interleave) { z_begin(); g_interleave(mk, C.thorough ? 4 : 3); }
#ifdef MC_SCHED
SCENARIO(sched) { z_begin(); g_sched(mk); }
#endif
