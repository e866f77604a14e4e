// Native run time of the contract language: replays a counterexample, or searches for a failing input, against the real code.
#include "vc.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <string>
#include <vector>
#include <random>
#include <fstream>
#include <sstream>
#include <chrono>
#include <limits>
#include <unistd.h>
#include <signal.h>
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" void vc_entry();   // the proof function (linked by name through a generated thunk)
static std::vector<std::string> rec;       // values handed out in this run
static std::vector<std::string> given; static size_t gi = 0; static bool replay = false;
static std::mt19937_64 rng; static jmp_buf discard; static int casen = 0;
static const char *outfile = 0; static bool dumped = false;
static std::string current = "crash";
static void dump() {
  if (dumped) return; dumped = true;
  FILE *f = outfile ? fopen(outfile, "w") : stderr;
  if (!f) return;
  fprintf(f, "obligation %s\ncase %d\n", current.c_str(), casen);
  for (auto &s : rec) fprintf(f, "%s\n", s.c_str());
  if (outfile) fclose(f); else fflush(f);
}
static void onsig(int s) { current = "safety: signal " + std::to_string(s); dump(); _exit(1); }
static void ondeath() { dump(); }
static uint64_t special(int bits) {
  uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1; uint64_t r = rng();
  switch (rng() % 10) {
    case 0: return 0; case 1: return 1; case 2: return m; case 3: return m >> 1; case 4: return (m >> 1) + 1;
    case 5: return rng() % 12; case 6: return (~(rng() % 12) + 1) & m; case 7: return (rng() % 300) & m; case 8: return (1ull << (rng() % bits)) & m;
    default: return (r >> (rng() % bits)) & m;
  }
}
static double specialf() {
  static const double t[] = {0, 1, -1, 0.5, -0.5, 2, -2, 3, 10, -10, 0.125, 100, 12, -7, 3.14159265358979, -3.14159265358979, 20, 7, 0.25, 4, 6, 5, 8};
  switch (rng() % 3) { case 0: return t[rng() % (sizeof t / sizeof *t)];
    case 1: return (double)((int)(rng() % 41) - 20) / (double)(1 << (rng() % 3));
    default: return std::uniform_real_distribution<double>(-10, 10)(rng); }
}
static uint64_t geti(const char *name, int bits) {
  uint64_t v;
  if (replay) {
    v = 0;
    if (gi < given.size()) { std::istringstream s(given[gi++]); std::string k; s >> k >> v; }
  } else v = special(bits);
  rec.push_back("i " + std::to_string(v) + " " + name);
  return v;
}
extern "C" {
uint8_t __vc_any_i8(const char *n) {
  if (!replay && rng() % 3 == 0) { static const char cs[] = "- =abcx10|,;:\t\n"; uint8_t v = cs[rng() % (sizeof cs - 1)]; rec.push_back("i " + std::to_string(v) + " " + n); return v; }
  return (uint8_t)geti(n, 8); }
uint16_t __vc_any_i16(const char *n) { return (uint16_t)geti(n, 16); }
uint32_t __vc_any_i32(const char *n) { return (uint32_t)geti(n, 32); }
uint64_t __vc_any_i64(const char *n) { return geti(n, 64); }
bool __vc_any_bool(const char *n) { return geti(n, 1) & 1; }
uint32_t __vc_any_range(const char *n, int lo, int hi) {
  int64_t w = (int64_t)hi - lo + 1; uint64_t v;
  if (replay) { v = 0; if (gi < given.size()) { std::istringstream s(given[gi++]); std::string k; s >> k >> v; } if ((int32_t)v < lo || (int32_t)v > hi) longjmp(discard, 1); }
  else { uint64_t r = rng() % 6; v = (uint32_t)(r == 0 ? lo : r == 1 ? hi : (int)(lo + (int64_t)(rng() % w))); }
  rec.push_back("i " + std::to_string((uint32_t)v) + " " + n); return (uint32_t)v; }
uint32_t __vc_havoc_i32() { return 0; } uint64_t __vc_havoc_i64() { return 0; } uint8_t __vc_havoc_i8() { return 0; } bool __vc_havoc_bool() { return 0; } double __vc_havoc_real() { return 0; }
double __vc_any_real(const char *n) {
  double v = 0;
  if (replay) { if (gi < given.size()) { std::istringstream s(given[gi++]); std::string k, t; s >> k >> t; v = strtod(t.c_str(), 0); } }
  else v = specialf();
  char b[80]; snprintf(b, sizeof b, "f %.17g %s", v, n); rec.push_back(b); return v; }
void __vc_assume(bool c) { if (!c) longjmp(discard, 1); }
void __vc_assert(bool c, const char *name) {
  if (c) return; current = name; dump(); fprintf(stderr, "VC-VIOLATION %s\n", name); fflush(stderr); _exit(1); }
void __vc_cover(bool, const char *) {}
static void fillin(const char *name, unsigned char *p, uint64_t n, uint64_t es, int kind) {
  std::string r = "a " + std::to_string(n) + " " + std::to_string(es) + " " + (char)kind; std::istringstream s;
  bool g = false;
  if (replay && gi < given.size()) { s.str(given[gi++]); std::string t; s >> t >> t >> t >> t; g = true; }
  for (uint64_t k = 0; k < n; ++k) {
    if (kind == 'f') {
      double v = 0; std::string t; if (g) { s >> t; v = strtod(t.c_str(), 0); } else if (!replay) v = specialf();
      if (es == 8) memcpy(p + k * es, &v, 8); else { float f = (float)v; memcpy(p + k * es, &f, 4); }
      char b[40]; snprintf(b, sizeof b, " %.17g", v); r += b;
    } else {
      uint64_t v = 0; if (g) s >> v; else if (!replay) v = es == 1 ? (rng() % 3 ? (uint64_t)("- =abcx10|,;:\t\n\0\377"[rng() % 17] & 0xff) : rng() & 0xff) : special(8 * es);
      memcpy(p + k * es, &v, es); r += " " + std::to_string(v);
    }
  }
  r += std::string(" ") + name; rec.push_back(r);
}
void *__vc_fresh(const char *name, uint64_t n, uint64_t es, int kind, int heap) {
  if (n > 100000000 / es) longjmp(discard, 1);
  void *p = heap == 1 ? malloc(n * es ? n * es : 1) : (void *)new unsigned char[n * es];
  fillin(name, (unsigned char *)p, n, es, kind); return p; }
void __vc_fill(const char *name, void *p, uint64_t n, uint64_t es, int kind) { fillin(name, (unsigned char *)p, n, es, kind); }
uint64_t __vc_concretize(uint64_t v, uint64_t, uint64_t) { return v; }
void __vc_option(const char *, const char *) {}
void __vc_replace(const char *, void *) {}
bool __vc_real_eq(double a, double b) {
  if (a == b || (a != a && b != b)) return true; double d = std::fabs(a - b), m = std::fmax(std::fabs(a), std::fabs(b)); return d <= 1e-6 * std::fmax(1.0, m); }
void __vc_heap_mark() {}
bool __vc_no_leak() { return true; }
int __vc_case() { return casen; }
bool __vc_symbolic() { return false; }
void __vc_snapshot() {}
void __vc_assigns(const void *, uint64_t) {}
void __vc_frame(const char *) {}
void __vc_loop(const char *, int, void *, void *) {}
}
#ifdef __has_feature
#endif
#include <sys/wait.h>
#include <unistd.h>
int main(int argc, char **argv) {
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(ondeath);
  else { signal(SIGSEGV, onsig); signal(SIGABRT, onsig); signal(SIGFPE, onsig); }
  std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "replay") {
    replay = true; std::ifstream f(argv[2]); std::string l;
    while (std::getline(f, l)) {
      if (l.empty() || l[0] == '#') continue;
      if (l.compare(0, 5, "case ") == 0) { casen = atoi(l.c_str() + 5); continue; }
      if (l[0] == 'i' || l[0] == 'f' || l[0] == 'a') if (l[1] == ' ') given.push_back(l);
    }
    outfile = argc > 3 ? argv[3] : 0;
    current = "safety: crash, sanitizer report or uncaught exception";
    try { if (!setjmp(discard)) vc_entry(); else { printf("DISCARDED\n"); return 3; } }
    catch (...) { current = "safety: uncaught exception"; dump(); fprintf(stderr, "VC-VIOLATION %s\n", current.c_str()); return 1; }
    printf("HELD\n"); return 0;
  }
  uint64_t seed = strtoull(argv[2], 0, 10); long iters = atol(argv[3]); double secs = atof(argv[4]); casen = atoi(argv[5]); outfile = argv[6];
  auto t0 = std::chrono::steady_clock::now(); long ok = 0, dis = 0;
  if (getenv("VC_FORK")) {   // the code under test keeps global state: one process per trial
    for (long k = 0; k < iters; ++k) {
      fflush(stdout); fflush(stderr);
      pid_t c = fork();
      if (c == 0) {
        rng.seed(seed * 1000003ull + k); current = "safety: crash, sanitizer report or uncaught exception";
        try { if (!setjmp(discard)) { vc_entry(); _exit(0); } else _exit(3); }
        catch (...) { current = "safety: uncaught exception"; dump(); fprintf(stderr, "VC-VIOLATION %s\n", current.c_str()); fflush(stderr); _exit(1); }
      }
      int s = 0; waitpid(c, &s, 0);
      if (WIFEXITED(s) && WEXITSTATUS(s) == 0) ++ok; else if (WIFEXITED(s) && WEXITSTATUS(s) == 3) ++dis;
      else { fprintf(stderr, "VC-VIOLATION in trial %ld\n", k); return 1; }
      if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
    }
    printf("SEARCHED ok=%ld discarded=%ld\n", ok, dis); return 0;
  }
  for (volatile long k = 0; k < iters; ++k) {
    rng.seed(seed * 1000003ull + k); rec.clear(); current = "safety: crash, sanitizer report or uncaught exception";
    try { if (!setjmp(discard)) { vc_entry(); ++ok; } else ++dis; }
    catch (...) { current = "safety: uncaught exception"; dump(); fprintf(stderr, "VC-VIOLATION %s\n", current.c_str()); return 1; }
    if ((k & 63) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
  }
  printf("SEARCHED ok=%ld discarded=%ld\n", ok, dis); return 0;
}
