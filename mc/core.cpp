#include "core.h"
#include <time.h>
#include <malloc.h>
namespace mc {
Ctx C;
IoCfg IO;
Scen *Scen::head = nullptr;
static double t0;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

__attribute__((noinline)) void poison_stack(int pat, size_t bytes) {
  volatile b8 *a = (volatile b8 *)__builtin_alloca(bytes);
  memset((void *)a, pat, bytes);
  asm volatile("" ::"r"(a) : "memory");
}

static std::vector<std::vector<Arena>> pool;
Arena arena_get(size_t bytes) {
  size_t pages = bytes / 4096 + 1;
  if (pages < pool.size() && !pool[pages].empty()) { Arena a = pool[pages].back(); pool[pages].pop_back(); return a; }
  b8 *m = (b8 *)mmap(0, (pages + 2) * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED || mprotect(m + 4096, pages * 4096, PROT_READ | PROT_WRITE)) { fprintf(stderr, "mmap failed\n"); exit(3); }
  return Arena{m + 4096, pages};
}
void arena_put(Arena a) {
  if (a.pages > 64) { munmap(a.base - 4096, (a.pages + 2) * 4096); return; }
  if (pool.size() <= a.pages) pool.resize(a.pages + 1);
  pool[a.pages].push_back(a);
}
static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static std::string pathstr() {
  std::string s; char b[16];
  for (size_t i = 0; i < C.pos; i++) { snprintf(b, 16, "%s%d", i ? "," : "", C.path[i]); s += b; }
  return s;
}
[[noreturn]] void finish(int rc) {
  FILE *f = C.outfile.empty() ? stdout : fopen(C.outfile.c_str(), "w");
  if (!f) exit(3);
  fprintf(f, "{\"rc\":%d,\"scen\":%s,\"execs\":%llu,\"transitions\":%llu,\"states\":%llu,\"checks\":%llu,\"wall\":%.3f", rc, jstr(C.scen).c_str(),
          (unsigned long long)C.execs, (unsigned long long)C.transitions, (unsigned long long)C.states.cnt, (unsigned long long)C.checks, now() - t0);
  fprintf(f, ",\"exec_index\":%llu,\"path\":%s,\"fail\":%s,\"log\":%s,\"samples\":[", (unsigned long long)C.execs, jstr(pathstr()).c_str(), jstr(C.failmsg).c_str(), jstr(C.logbuf).c_str());
  for (size_t i = 0; i < C.samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", jstr(C.samples[i]).c_str());
  fprintf(f, "],\"notes\":[");
  for (size_t i = 0; i < C.notes.size(); i++) fprintf(f, "%s%s", i ? "," : "", jstr(C.notes[i]).c_str());
  fprintf(f, "]}\n");
  fflush(f); if (f != stdout) fclose(f);
  if (!C.fpfile.empty()) { FILE *g = fopen(C.fpfile.c_str(), "wb"); if (!g) _exit(3); for (b64 x : C.states.t) if (x) fwrite(&x, 8, 1, g); fclose(g); }
  if (C.trf) fclose(C.trf);
  _exit(rc);
}
static void on_prof(int) {
  static const char m[] = "execution exceeded its CPU time bound (runaway loop)";
  memcpy(C.sh->what, m, sizeof m);
  _exit(77);
}
static void arm(int sec) { itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &it, nullptr); }
static bool next() {
  while (!C.path.empty()) {
    size_t i = C.path.size() - 1;
    if (C.path[i] + 1 < C.lim[i]) { C.path[i]++; return true; }
    C.path.pop_back(); C.lim.pop_back();
  }
  return false;
}
} // namespace mc
using namespace mc;
int main(int argc, char **argv) {
  t0 = now();
  mallopt(M_PERTURB, PERTURB);   // fresh heap memory has known contents that look like nothing in particular
  std::string scen, replay, pathfile; bool rep = false; int cpu = 200;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { if (i + 1 >= argc) exit(3); return argv[++i]; };
    if (a == "--scen") scen = val();
    else if (a == "--tier") C.thorough = val() == "thorough";
    else if (a == "--seed") C.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--shard") { std::string s = val(); sscanf(s.c_str(), "%d/%d/%d", &C.sh_i, &C.sh_n, &C.sh_d); }
    else if (a == "--out") C.outfile = val();
    else if (a == "--pathfile") pathfile = val();
    else if (a == "--replay") { replay = val(); rep = true; }
    else if (a == "--stop-at") C.stop_at = strtoull(val().c_str(), 0, 10);
    else if (a == "--noref") C.noref = true;
    else if (a == "--transcript") C.trfile = val();
    else if (a == "--fp") C.fpfile = val();
    else if (a == "--cpu") cpu = atoi(val().c_str());
    else if (a == "--list") { for (Scen *s = Scen::head; s; s = s->next) puts(s->name); return 0; }
    else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 3; }
  }
  C.scen = scen; C.sh = &C.local;
  if (!pathfile.empty()) {
    int fd = open(pathfile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Shared))) return 3;
    C.sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (C.sh == MAP_FAILED) return 3;
  }
  // anything the code under test prints goes nowhere
  if (C.outfile.size()) { int n = open("/dev/null", O_WRONLY); if (n >= 0) dup2(n, 1); }
  ScenFn fn = nullptr;
  int pat = -1; std::string bare = scen;   // "name@xx": the scenario with stack, heap and state objects full of xx
  if (auto at = scen.find('@'); at != std::string::npos) { pat = (int)strtol(scen.c_str() + at + 1, nullptr, 16); bare = scen.substr(0, at); mallopt(M_PERTURB, (unsigned char)~pat); }
  auto cfg = [&] { IO = IoCfg(); if (pat >= 0) IO.poison = IO.fill = pat; };
  for (Scen *s = Scen::head; s; s = s->next) if (bare == s->name) fn = s->fn;
  if (!fn) { fprintf(stderr, "no scenario %s\n", scen.c_str()); return 3; }
  if (!C.trfile.empty()) { C.trf = fopen(C.trfile.c_str(), "wb"); if (!C.trf) return 3; }
  signal(SIGPROF, on_prof);
  if (rep) {
    C.replaying = true; C.logging = true;
    for (const char *p = replay.c_str(); *p;) { char *e; C.path.push_back((int)strtol(p, &e, 10)); C.lim.push_back(-1); p = e; if (*p == ',') p++; if (e == p && *p && *p != '-' && (*p < '0' || *p > '9')) return 3; }
    arm(cpu); C.sh->exec = 0; C.pos = 0; cfg();
    fn(); C.execs = 1; finish(0);
  }
  b64 nextsample = 0;
  for (;;) {
    C.pos = 0; C.trh = 0; cfg(); C.sh->exec = C.execs; C.sh->n = 0;
    bool smp = C.execs == nextsample && C.samples.size() < 4;
    C.logging = smp || C.execs == C.stop_at; C.logbuf.clear();
    if ((C.execs & 15) == 0) arm(cpu);
    b64 t0_ = C.transitions, c0_ = C.checks;
    try { fn(); } catch (int skip) { if (skip != -1) throw; C.transitions = t0_; C.checks = c0_; if (C.path.size() != C.pos) { fprintf(stderr, "scenario is not deterministic (shard)\n"); return 3; } if (!next()) break; continue; }
    if (C.sh_n > 1) {
      if (!C.sh_d) { b64 w = 1; while (C.sh_d < 3 && C.sh_d < (int)C.pos && w < 4ull * C.sh_n) w *= C.lim[C.sh_d++]; if (!C.sh_d) C.sh_d = 1; }
      if (!mine()) { C.transitions = t0_; C.checks = c0_; if ((int)C.path.size() > C.sh_d) { C.path.resize(C.sh_d); C.lim.resize(C.sh_d); } if (!next()) break; continue; }
    }
    if (C.pos != C.path.size()) { fprintf(stderr, "scenario is not deterministic (depth)\n"); return 3; }
    if (smp) { std::string s = C.logbuf; if (s.size() > 700) s = s.substr(0, 700) + "..."; C.samples.push_back(scen + " [" + pathstr() + "] " + s); nextsample = C.execs ? C.execs * 9 : 3; C.logbuf.clear(); }
    if (C.trf) fwrite(&C.trh, 8, 1, C.trf);
    C.execs++;
    if (C.execs > C.stop_at) break;
    if (!next()) break;
  }
  C.logbuf.clear(); C.pos = 0;
  finish(0);
}
