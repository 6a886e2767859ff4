// Large inputs: a long read-only buffer backed by few physical pages, and a
// thread with a small stack to run an operation in.
#pragma once
#include "core.h"
#include <pthread.h>
#include <sys/syscall.h>
#include <functional>
#include <thread>
namespace mc {
struct BigIn {
  b8 *p; b64 n, len;
  static constexpr b64 unit = 257 * 4096;   // period of the content
  explicit BigIn(b64 n_, b64 tag) : n(n_) {
    len = (n / unit + 1) * unit;
    char nm[64]; snprintf(nm, sizeof nm, "/tmp/mcbig.%d", (int)getpid());
    int fd = open(nm, O_RDWR | O_CREAT | O_EXCL, 0600);
    if (fd < 0) { fprintf(stderr, "cannot create %s\n", nm); exit(3); }
    unlink(nm);
    auto v = rnd(unit, tag);
    if (write(fd, v.data(), unit) != (ssize_t)unit) exit(3);
    p = (b8 *)mmap(0, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { fprintf(stderr, "no address space\n"); exit(3); }
    for (b64 o = 0; o < len; o += unit)
      if (mmap(p + o, unit, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { fprintf(stderr, "mmap unit\n"); exit(3); }
    close(fd);
  }
  ~BigIn() { munmap(p, len); }
};
struct BigOut {
  b8 *p; b64 n, len;
  explicit BigOut(b64 n_) : n(n_) {
    len = (n + 4095) / 4096 * 4096 + 4096;
    p = (b8 *)mmap(0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { fprintf(stderr, "no memory for output\n"); exit(3); }
    mprotect(p + len - 4096, 4096, PROT_NONE);
  }
  ~BigOut() { munmap(p, len); }
};
static inline void *small_main(void *a) { (*(std::function<void()> *)a)(); return nullptr; }
static inline void in_small_stack(std::function<void()> f, size_t bytes = 256 << 10) {
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, bytes);
  pthread_t t;
  if (pthread_create(&t, &at, small_main, &f)) { fprintf(stderr, "pthread_create\n"); exit(3); }
  pthread_join(t, nullptr); pthread_attr_destroy(&at);
}
// something computed in another thread while the real code works
struct Beside { std::thread t; template <class F> explicit Beside(F f) : t(f) {} void join() { t.join(); } ~Beside() { if (t.joinable()) t.join(); } };
} // namespace mc
