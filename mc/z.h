// GMP support: an arena that is emptied before every execution (the code under
// test never frees), control over the random draws, and a small bignum wrapper.
// Link with -Wl,--wrap=__gmpz_urandomm,--wrap=__gmpz_urandomb,--wrap=__gmp_randinit_mt
#pragma once
#include "core.h"
#include <link.h>
#include <gmp.h>
#ifdef MC_SCHED
#include "sched.h"
#endif
extern "C" char __data_start[], _end[];
namespace mc {
static b8 *ar_base = nullptr; static size_t ar_pos = 0; enum : size_t { AR = 1ull << 30, ARG = 32 };
static int ar_fill = 0xA5;
struct ArHdr { size_t n; b64 magic; };
static void ar_ck(ArHdr *h) {
  if (h->magic != 0x5AFEB10C5AFEB10Cull) fail("memory before a bignum was overwritten");
  b8 *e = (b8 *)(h + 1) + h->n; for (int i = 0; i < ARG; i++) if (e[i] != 0xD7) fail("memory behind a %zu-byte bignum was overwritten", h->n);
}
static void *ar_alloc(size_t n) {
#ifdef MC_SCHED
  if (void *q = arena_alloc(n ? n : 1)) return q;
#endif
  size_t need = (sizeof(ArHdr) + n + ARG + 31) & ~(size_t)31;
  if (ar_pos + need > AR) { ar_pos = 0; fail("a single execution used more than a gigabyte of bignum memory (does a call not return?)"); }
  ArHdr *h = (ArHdr *)(ar_base + ar_pos); ar_pos += need; h->n = n; h->magic = 0x5AFEB10C5AFEB10Cull;
  memset(h + 1, ar_fill, n); memset((b8 *)(h + 1) + n, 0xD7, ARG); return h + 1;
}
static inline size_t ar_need(size_t n) { return (sizeof(ArHdr) + n + ARG + 31) & ~(size_t)31; }
#ifdef MC_SCHED
static bool ar_theirs(void *p) { return arena_has(p); }
static int who() { return sched_who(); }
#else
static bool ar_theirs(void *) { return false; }
static int who() { return 0; }
#endif
static void ar_free(void *p, size_t) { if (ar_theirs(p)) return; ArHdr *h = (ArHdr *)p - 1; ar_ck(h); if ((b8 *)h + ar_need(h->n) == ar_base + ar_pos) ar_pos = (b8 *)h - ar_base; }
static void *ar_realloc(void *p, size_t o, size_t n) { if (ar_theirs(p)) { void *q = ar_alloc(n); memcpy(q, p, o < n ? o : n); return q; } ar_ck((ArHdr *)p - 1); if (n <= ((ArHdr *)p - 1)->n && n * 2 > ((ArHdr *)p - 1)->n) return p; void *q = ar_alloc(n); memcpy(q, p, o < n ? o : n); return q; }
// random draws: fed values first, then the real generator
struct Z {
  mpz_t z;
  Z() { mpz_init(z); }
  ~Z() { mpz_clear(z); }
  Z(long v) { mpz_init_set_si(z, v); }
  Z(const Z &o) { mpz_init_set(z, o.z); }
  Z &operator=(const Z &o) { mpz_set(z, o.z); return *this; }
  mpz_ptr operator->() { return z; }
  mpz_srcptr operator->() const { return z; }
  operator mpz_ptr() { return z; }
  operator mpz_srcptr() const { return z; }
  std::string s() const { return mpz_sizeinbase(z, 16) < 400 ? [&] { char b[512]; gmp_snprintf(b, sizeof b, "%Zx", z); return std::string(b); }() : std::string("<big>"); }
  b64 h() const { return mix64(mpz_sgn(z) + 5, hashb(mpz_limbs_read(z), mpz_size(z) * 8)); }
};
static inline Z zpow2(b64 k) { Z r; mpz_setbit(r, k); return r; }
static inline Z zmod(const Z &a, const Z &n) { Z r; mpz_mod(r, a, n); return r; }
static inline Z zmul(const Z &a, const Z &b) { Z r; mpz_mul(r, a, b); return r; }
static inline Z zadd(const Z &a, const Z &b) { Z r; mpz_add(r, a, b); return r; }
static inline Z zsub(const Z &a, const Z &b) { Z r; mpz_sub(r, a, b); return r; }
static inline Z zpowm(const Z &a, const Z &e, const Z &n) { Z r; mpz_powm(r, a, e, n); return r; }
static inline Z zrnd(b64 tag, int bits) { auto v = rnd(bits / 8 + 9, tag); Z r; mpz_import(r, v.size(), 1, 1, 0, 0, v.data()); mpz_fdiv_r_2exp(r, r, bits); return r; }
static inline void eqz(const char *w, const Z &g, const Z &e) { C.checks++; if (mpz_cmp(g, e)) fail("%s: got 0x%s, expected 0x%s", w, g.s().c_str(), e.s().c_str()); }
// fed values for urandomm / urandomb, number of calls, what was drawn; one set per thread
enum { NFEED = 400 };
struct Draws { Z *fm_, *fb_; int nfm_, nfb_, cfm_, cfb_; Z *lastm_, *drawb_; b64 nbits_[4]; };
static Draws dr[2]; static long seed_mt = -1;
alignas(16) static b8 feeds[2][2][NFEED * sizeof(Z)], drawn[2][5 * sizeof(Z)];
#define fm (mc::dr[mc::who()].fm_)
#define fb (mc::dr[mc::who()].fb_)
#define nfm (mc::dr[mc::who()].nfm_)
#define nfb (mc::dr[mc::who()].nfb_)
#define cfm (mc::dr[mc::who()].cfm_)
#define cfb (mc::dr[mc::who()].cfb_)
#define lastm (mc::dr[mc::who()].lastm_)
#define drawb (mc::dr[mc::who()].drawb_)
#define nbits_asked (mc::dr[mc::who()].nbits_)
// What static (also thread-local) variables of the code under test still refer to (a constant computed once, say) is kept when the arena is emptied.
__attribute__((no_sanitize("address"))) static size_t ar_kept() {
  static size_t floor = 0; b64 top = 0;
  auto ours = [](const b8 *p) { return p >= (b8 *)feeds && p < (b8 *)feeds + sizeof feeds || p >= (b8 *)drawn && p < (b8 *)drawn + sizeof drawn; };
  static size_t tls = 0; static bool known = false;
  if (!known) dl_iterate_phdr([](dl_phdr_info *i, size_t, void *) { for (int j = 0; j < i->dlpi_phnum; j++) if (i->dlpi_phdr[j].p_type == PT_TLS) tls = (i->dlpi_phdr[j].p_memsz + 15) & ~15ull; return 1; }, 0), known = true;
  const b8 *tp = (const b8 *)__builtin_thread_pointer();
  const b8 *from[2] = {(const b8 *)(((size_t)__data_start + 7) & ~7ull), tp - tls}, *to[2] = {(const b8 *)_end, tp};
  for (int i = 0; i < 2; i++)
    for (const b8 *p = from[i]; p + 8 <= to[i]; p += 8) {
      b64 v = *(const volatile b64 *)p; v -= (b64)ar_base;
      if (v < ar_pos && v >= sizeof(ArHdr) && p != (b8 *)&ar_base && !ours(p) && !(v & 31 ^ sizeof(ArHdr) & 31) && v > top) top = v;
    }
  if (top > floor) { ArHdr *h = (ArHdr *)(ar_base + top) - 1; if (h->magic == 0x5AFEB10C5AFEB10Cull) floor = top - sizeof(ArHdr) + ar_need(h->n); }
  return floor < AR / 2 ? floor : 0;
}
static void z_begin() {
  if (!ar_base) {
    ar_base = (b8 *)mmap(0, AR, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (ar_base == MAP_FAILED) { fprintf(stderr, "arena\n"); exit(3); }
    mp_set_memory_functions(ar_alloc, ar_realloc, ar_free);
  }
  ar_pos = ar_kept(); ar_fill = 0xA5; seed_mt = -1;
  for (int t = 0; t < 2; t++) {
    Draws &d = dr[t]; memset(&d, 0, sizeof d); d.fm_ = (Z *)feeds[t][0]; d.fb_ = (Z *)feeds[t][1]; d.lastm_ = (Z *)drawn[t]; d.drawb_ = d.lastm_ + 1;
    for (int i = 0; i < 5; i++) new (d.lastm_ + i) Z();
  }
}
static inline void feedm(const Z &v) { if (nfm >= NFEED) exit(3); new (fm + nfm++) Z(v); }
static inline void feedb(const Z &v) { if (nfb >= NFEED) exit(3); new (fb + nfb++) Z(v); }
struct Rs { gmp_randstate_t r; explicit Rs(long s) { gmp_randinit_lc_2exp_size(r, 64); gmp_randseed_ui(r, s); } };
} // namespace mc
extern "C" {
void __real___gmpz_urandomm(mpz_ptr, gmp_randstate_ptr, mpz_srcptr);
void __real___gmpz_urandomb(mpz_ptr, gmp_randstate_ptr, mp_bitcnt_t);
void __real___gmp_randinit_mt(gmp_randstate_ptr);
void __wrap___gmpz_urandomm(mpz_ptr r, gmp_randstate_ptr s, mpz_srcptr n) {
  if (cfm++ < nfm) mpz_mod(r, fm[cfm - 1], n); else __real___gmpz_urandomm(r, s, n);
  if (lastm) mpz_set(lastm->z, r);
}
void __wrap___gmpz_urandomb(mpz_ptr r, gmp_randstate_ptr s, mp_bitcnt_t n) {
  if (cfb++ < nfb) mpz_fdiv_r_2exp(r, fb[cfb - 1], n); else __real___gmpz_urandomb(r, s, n);
  if (drawb && cfb <= 4) { mpz_set(drawb[cfb - 1], r); nbits_asked[cfb - 1] = n; }
}
void __wrap___gmp_randinit_mt(gmp_randstate_ptr r) { __real___gmp_randinit_mt(r); if (mc::seed_mt >= 0) gmp_randseed_ui(r, mc::seed_mt); }
}
// ---- keys
namespace mc {
struct Key { int k; Z N, y, p, q, ps; };
static inline bool nonres(const Z &y, const Z &p, const Z &q) { return mpz_jacobi(y, p) == -1 && mpz_jacobi(y, q) == -1; }
static Key small_key(int k, long p, long q, long y) { Key K; K.k = k; K.p = Z(p); K.q = Z(q); K.N = Z(p * q); K.y = Z(y); K.ps = zpow2(k); return K; }
static std::vector<b8> zsave(const Z &z) { size_t n = 0; std::vector<b8> v(mpz_sizeinbase(z, 256) + 8); mpz_export(v.data(), &n, 1, 1, 0, 0, z); v.resize(n); return v; }
static Z zload(const std::vector<b8> &v) { Z z; mpz_import(z, v.size(), 1, 1, 0, 0, v.data()); return z; }
// a key with random primes of the given sizes (pb > k)
static Key make_key(int k, int pb, int qb, b64 tag) {
  Key K; K.k = k; K.ps = zpow2(k);
  for (b64 i = 0;; i++) { Z r = zrnd(tag * 1000 + i, pb - k); mpz_setbit(r, pb - k - 1); mpz_mul_2exp(K.p, r, k); mpz_add_ui(K.p, K.p, 1); if (mpz_probab_prime_p(K.p, 25)) break; }
  for (b64 i = 0;; i++) { K.q = zrnd(tag * 1000 + 500000 + i, qb); mpz_setbit(K.q, qb - 1); mpz_setbit(K.q, 0); mpz_setbit(K.q, 1); if (mpz_probab_prime_p(K.q, 25) && mpz_cmp(K.p, K.q)) break; }
  K.N = zmul(K.p, K.q);
  for (b64 i = 0;; i++) { K.y = zmod(zrnd(tag * 1000 + 900000 + i, pb + qb + 30), K.N); if (nonres(K.y, K.p, K.q)) break; }
  return K;
}
static Key big_key(int k, int pb, int qb, b64 tag) {   // remembered outside the arena
  struct E { int k, pb, qb; b64 tag; std::vector<b8> p, q, y; }; static std::vector<E> es;
  for (auto &e : es) if (e.k == k && e.pb == pb && e.qb == qb && e.tag == tag) { Key K; K.k = k; K.ps = zpow2(k); K.p = zload(e.p); K.q = zload(e.q); K.y = zload(e.y); K.N = zmul(K.p, K.q); return K; }
  Key K = make_key(k, pb, qb, tag); es.push_back({k, pb, qb, tag, zsave(K.p), zsave(K.q), zsave(K.y)}); return K;
}
// is c an encryption of m: c*y^-m must be a 2^k-th power modulo p and modulo q
static inline bool encrypts(const Key &K, const Z &c, const Z &m) {
  Z g; mpz_gcd(g, c, K.N); if (mpz_cmp_ui(g, 1)) return false;
  Z nm; mpz_neg(nm, m); Z r = zmod(zmul(c, zpowm(K.y, nm, K.N)), K.N);
  Z p1 = zsub(K.p, 1), q1 = zsub(K.q, 1), e, d; mpz_gcd(d, p1, K.ps); mpz_divexact(e, p1, d); if (mpz_cmp_ui(zpowm(r, e, K.p), 1)) return false;
  mpz_gcd(d, q1, K.ps); mpz_divexact(e, q1, d); return mpz_cmp_ui(zpowm(r, e, K.q), 1) == 0;
}
static const long PR[] = {3,5,7,11,13,17,19,23,29,31,37,41,43,47,53,59,61,67,71,73,79,83,89,97,101,103,107,109,113,127,131,137,139,149,151,157,163,167,173,179,181,191,193,197,199,211,223,227,229,233,239,241,251,257,449,577,641,769,1153,1217};
} // namespace mc
