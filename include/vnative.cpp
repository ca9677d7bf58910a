// Native run-time of the harnesses: concrete inputs, used to replay counterexamples and for the bounded stand-in.
#include "vh.h"
#undef v_int
#include <csignal>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <ctime>
static unsigned long long S = 1;
static unsigned long long rnd() { S ^= S << 13; S ^= S >> 7; S ^= S << 17; return S * 2685821657736338717ull; }
static double urnd() { return (rnd() >> 11) * (1.0/9007199254740992.0); }
static std::vector<std::string> *tr;
static std::vector<std::pair<const char *, void(*)(int)>> *reg;
static std::vector<void*> *blocks;
static bool quiet = false;
struct Skip {};
struct Shared { long checks, runs, skips; char label[256]; unsigned long long seed; int cfg; char entry[96]; };
static Shared *sh;
extern "C" {
void v_register(const char *n, void (*f)(int)) { if (!reg) reg = new std::vector<std::pair<const char *, void(*)(int)>>; reg->push_back({n, f}); }
static void log_(const char *n, const char *fmt, double v) { char b[200]; char c[80]; snprintf(c, 80, fmt, v); snprintf(b, 200, "%s=%s", n, c); if (tr) tr->push_back(b); }
void v_assume(bool c) { if (!c) throw Skip(); }
void v_dead() { throw Skip(); }
void v_cover(const char *) {}
double v_ufn(const char *n, double a, double b, double c) { double h = 0; for (; *n; n++) h = h*0.731 + *n*0.0173; return 1.6 + sin(h + 1.7*a + 0.9*b + 0.6*c) + 0.4*cos(3*h + 0.31*a - b + 2*c); }
void v_trace(const char *s, long v) {}
static void fail(const char *label) {
  printf("FAIL %s\n", label);
  for (auto &s : *tr) printf("  input %s\n", s.c_str());
  fflush(stdout);
  snprintf(sh->label, 256, "%s", label);
  _exit(3);
}
void v_assert_(bool c, const char *label) { sh->checks++; if (!c) fail(label); }
void v_check_eq(double a, double b, double tol, double scale, const char *label) {
  sh->checks++;
  double m = fabs(a) > fabs(b) ? fabs(a) : fabs(b); if (m < scale) m = scale;
  if (std::isnan(a) && std::isnan(b)) return;
  if (!(fabs(a - b) <= tol*m)) { printf("  got %.17g expected %.17g\n", a, b); fail(label); }
}
long v_nint(const char *n, long lo, long hi) { if (hi < lo) throw Skip(); long v = lo + (long)(rnd() % (unsigned long long)(hi - lo + 1)); log_(n, "%.0f", (double) v); return v; }
double v_nreal(const char *n, double lo, double hi) {
  if (lo < -1e30) lo = -3; if (hi > 1e30) hi = lo + 6;
  double v; unsigned c = rnd() % 12;
  if (c == 0) v = lo; else if (c == 1) v = hi; else v = lo + (hi - lo)*urnd();
  log_(n, "%.17g", v); return v; }
int v_choose(int n) { return (int) v_nint("choice", 0, n - 1); }
static void *blk(size_t n) { void *p = nullptr; if (posix_memalign(&p, 64, n ? n : 1)) abort(); blocks->push_back(p); return p; }
void *v_array_(const char *, long n, int kind) {
  if (n < 0) throw Skip();
  size_t es = kind == 0 ? 8 : kind == 1 ? 4 : kind == 2 ? 1 : kind == 3 ? 4 : 8;
  char *p = (char *) blk(n*es);
  for (long i = 0; i < n; i++) {
    if (kind == 0) ((double*)p)[i] = 2*urnd() - 1;
    else if (kind == 1) ((float*)p)[i] = (float)(2*urnd() - 1);
    else if (kind == 2) p[i] = (char) rnd();
    else if (kind == 3) ((int*)p)[i] = (int) (rnd() % 1000);
    else ((long*)p)[i] = (long) (rnd() % 1000);
  }
  return p;
}
void *v_cells_(const char *, long b) { void *p = blk(b); memset(p, 0xA5, b); return p; }
void *v_zeroed_(const char *, long b) { void *p = blk(b); memset(p, 0, b); return p; }
void *v_copy(const void *p, size_t n) { void *q = blk(n); memcpy(q, p, n); return q; }
}
static void one(const char *name, void (*f)(int), int cfg, unsigned long long seed) {
  S = seed * 0x9E3779B97F4A7C15ull + 0x1234567 + cfg; if (!S) S = 1; for (int i = 0; i < 5; i++) rnd();
  tr->clear();
  sh->seed = seed; sh->cfg = cfg; snprintf(sh->entry, 96, "%s", name);
  try { f(cfg); sh->runs++; } catch (Skip &) { sh->skips++; }
  for (void *p : *blocks) free(p);
  blocks->clear();
}
// usage: native entry cfg seed0 nruns seconds
int main(int argc, char **argv) {
  if (argc < 6) { for (auto &r : *reg) printf("%s\n", r.first); return 0; }
  tr = new std::vector<std::string>; blocks = new std::vector<void*>;
  sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  const char *name = argv[1]; int cfg = atoi(argv[2]); unsigned long long s0 = strtoull(argv[3], 0, 10); long n = atol(argv[4]); double secs = atof(argv[5]);
  void (*f)(int) = nullptr; for (auto &r : *reg) if (!strcmp(r.first, name)) f = r.second;
  if (!f) { printf("NOENTRY\n"); return 2; }
  pid_t pid = fork();
  if (!pid) {
    alarm((unsigned) secs + 60);
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    for (long i = 0; i < n; i++) {
      one(name, f, cfg, s0 + i);
      clock_gettime(CLOCK_MONOTONIC, &t1);
      if ((t1.tv_sec - t0.tv_sec) + 1e-9*(t1.tv_nsec - t0.tv_nsec) > secs) break;
    }
    fflush(stdout); _exit(0);
  }
  int stt = 0; waitpid(pid, &stt, 0);
  int rc = 0;
  if (WIFSIGNALED(stt)) { rc = WTERMSIG(stt) == SIGALRM ? 4 : 3; printf("%s signal %d\n", rc == 4 ? "TIMEOUT" : "CRASH", WTERMSIG(stt)); }
  else rc = WEXITSTATUS(stt);
  printf("STAT entry=%s cfg=%d seed=%llu runs=%ld skips=%ld checks=%ld label=%s\n", sh->entry, sh->cfg, sh->seed, sh->runs, sh->skips, sh->checks, sh->label);
  return rc;
}
