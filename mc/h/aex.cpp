// The shipped example program as the composition under test: its main() is compiled as ex_main,
// the adversary sits between sealing and validation.
#include "../core.h"
#include <sys/wait.h>
using namespace mc;
int ex_main();
struct Sh2 { int secno, verdict, rejected, released, calls; size_t wlen; };
static Sh2 *X; static int sect, bit;
extern "C" {
struct hmac_state; struct aes_state; struct hc128_state;
int real_validate(hmac_state *, b8 *, b8 *, b64, int) asm("__real_" SYM_hmac_tag_validation);
int wrap_validate(hmac_state *, b8 *, b8 *, b64, int) asm("__wrap_" SYM_hmac_tag_validation);
void real_cfb(aes_state *, b8 *, b8 *, b64, b64) asm("__real_" SYM_aes_cfb_process_packet);
void wrap_cfb(aes_state *, b8 *, b8 *, b64, b64) asm("__wrap_" SYM_aes_cfb_process_packet);
void real_hc(hc128_state *, b8 *, b8 *, b64) asm("__real_" SYM_hc128_process_packet);
void wrap_hc(hc128_state *, b8 *, b8 *, b64) asm("__wrap_" SYM_hc128_process_packet);
int wrap_validate(hmac_state *h, b8 *t, b8 *m, b64 n, int tn) {
  X->secno++; X->calls++;
  if (X->secno == sect) X->wlen = n + tn;
  if (X->secno == sect && bit >= 0) { if ((b64)bit / 8 < n) m[bit / 8] ^= 1 << bit % 8; else if ((b64)bit / 8 < n + tn) t[bit / 8 - n] ^= 1 << bit % 8; }
  int r = real_validate(h, t, m, n, tn);
  if (X->secno == sect) { X->verdict = r & 0xff; X->rejected = !(r & 0xff); }
  return r;
}
void wrap_cfb(aes_state *s, b8 *o, b8 *i, b64 n, b64 m) { X->calls++; if (X->secno == sect && X->rejected) X->released = 1; real_cfb(s, o, i, n, m); }
void wrap_hc(hc128_state *s, b8 *o, b8 *i, b64 n) { X->calls++; if (X->secno == sect && X->rejected) X->released = 1; real_hc(s, o, i, n); }
}
static void run(int s, int b) {
  if (!X) X = (Sh2 *)mmap(0, sizeof(Sh2), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sect = s; bit = b; memset(X, 0, sizeof *X); X->verdict = -1;
  pid_t p = fork(); if (p < 0) { fprintf(stderr, "fork failed\n"); exit(3); }
  if (!p) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); ex_main(); _exit(0); }
  int st; while (waitpid(p, &st, 0) < 0) {}
  step(X->calls);
  if (WIFSIGNALED(st)) fail("the example died with signal %d (section %d, bit %d)", WTERMSIG(st), s, b);
  if (X->verdict < 0) fail("section %d of the example does not validate its packet", s);
  if (b < 0 && !X->verdict) fail("section %d rejected the genuine packet", s);
  if (b >= 0 && (b64)b / 8 < X->wlen && X->verdict) fail("section %d accepted a packet with bit %d flipped", s, b);
  C.checks++; state(mix64(hashb(X, sizeof *X), s * 1000 + b + 1));
}
SCENARIO(example) {
  int s = 1 + choose(2, "section"), b = choose(1000, "bit (the last one: none)"); if (b == 999) { run(s, -1); return; }
  run(s, b); if ((b64)b / 8 >= X->wlen) return;
  if (X->released) { if (s == 2) finding("example-hc128-decrypts-after-invalid-tag", "example_ae.cpp, section 2 (HC-128): after reporting an invalid tag the program goes on, reports a valid tag and decrypts the modified packet"); else fail("section %d decrypted a packet whose tag it had rejected (bit %d flipped)", s, b); }
}
