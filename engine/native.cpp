// Native driver for a contract file: the same harnesses the verifier proves are
// compiled against the real code and run on a tape of inputs.
//   list                                  harness names
//   replay  HARNESS TAPEFILE              exit 0 holds / 3 fails / 4 rejected
//   search  HARNESS SEED SECONDS OUTTAPE  exit 0 nothing found / 3 failing tape written
#include "vc.h"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <string>
#include <vector>
#include <random>
#include <chrono>
#include <exception>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cxxabi.h>
struct Reg { const char *n; void (*f)(); };
static std::vector<Reg> &regs() { static std::vector<Reg> r; return r; }
void vc_register(const char *n, void (*f)()) { regs().push_back({n, f}); }
struct VcReject {}; struct VcFail {};
static const int MAXT = 1 << 16;
struct Shared { int n; int state; long iters, rejected; char msg[512]; double t[MAXT]; };
static Shared *S;
static bool replaying; static std::vector<double> tape; static size_t tp;
static std::mt19937_64 rng; static int sz = 3, style = 0; static bool rejected, failed;
static std::vector<void *> blocks;
static void reject() { rejected = true; throw VcReject(); }
static double put(double v) { if (S->n < MAXT) S->t[S->n++] = v; return v; }
static bool fromtape(double &v) {
  if (!replaying) return false;
  v = tp < tape.size() ? tape[tp++] : 0; return true;
}
static long rnd(long lo, long hi) { return lo + (long)(rng() % (unsigned long)(hi - lo + 1)); }
static double pick() {
  switch (style % 4) {
  case 0: return rnd(-2, 2);
  case 1: return rnd(-8, 8) / 2.0;
  case 2: return rnd(0, 4);
  default: return rnd(-40, 40) / 8.0;
  }
}
static double realv() {
  if (rnd(0, 15) == 0) return 0;
  if (rnd(0, 11) == 0) { std::uniform_real_distribution<double> u(-5, 5); return u(rng); }
  return pick();
}
extern "C" {
int vc_int(int lo, int hi) {
  double v; if (fromtape(v)) { if (v < lo || v > hi) reject(); return (int)v; }
  if (lo > hi) reject();
  long l = lo, h = hi, x;
  switch (rnd(0, 9)) {
  case 0: x = l; break;
  case 1: x = h; break;
  case 2: x = rnd(l, h); break;
  case 3: x = l + rnd(0, 3); break;
  case 4: x = h - rnd(0, 3); break;
  case 5: x = rnd(0, 40); break;
  default: x = rnd(-4, 6); if (l >= -4) x = rnd(l, l + sz + 3);
  }
  if (x < l || x > h) x = rnd(l, h);
  return (int)put(x);
}
int vc_size(int lo, int hi) {
  double v; if (fromtape(v)) { if (v < lo || v > hi) reject(); return (int)v; }
  if (lo > hi) reject();
  long h = std::min<long>(hi, (long)lo + sz);
  return (int)put(rnd(lo, h));
}
double vc_real(void) { double v; if (fromtape(v)) { if (!std::isfinite(v)) reject(); return v; } return put(realv()); }
double vc_posreal(void) { double v; if (fromtape(v)) { if (!(v > 0) || !std::isfinite(v)) reject(); return v; }
  v = std::fabs(realv()); if (v == 0) v = 1; return put(v); }
double vc_real_nan(void) { double v; if (fromtape(v)) { if (std::isinf(v)) reject(); return v; } return put(rnd(0, 3) ? realv() : NAN); }
double vc_real_ext(void) { double v; if (fromtape(v)) return v;
  int k = rnd(0, 9); return put(k == 0 ? NAN : k == 1 ? INFINITY : k == 2 ? -INFINITY : realv()); }
bool vc_bool(void) { double v; if (fromtape(v)) return v != 0; return put(rnd(0, 1)); }
}
static void *block(size_t n) { void *p = malloc(n); blocks.push_back(p); return p; }
extern "C" {
double *vc_array(int n) { if (n < 0) reject(); double *p = (double *)block(sizeof(double) * n); for (int i = 0; i < n; i++) p[i] = vc_real(); return p; }
double *vc_array_nan(int n) { if (n < 0) reject(); double *p = (double *)block(sizeof(double) * n); for (int i = 0; i < n; i++) p[i] = vc_real_nan(); return p; }
double *vc_array_pos(int n) { if (n < 0) reject(); double *p = (double *)block(sizeof(double) * n); for (int i = 0; i < n; i++) p[i] = vc_posreal(); return p; }
double *vc_array_class(int n, int hi) { if (n < 0) reject(); double *p = (double *)block(sizeof(double) * n);
  for (int i = 0; i < n; i++) { double v; if (fromtape(v)) { if (!std::isnan(v) && (v < 0 || v > hi || v != std::floor(v))) reject(); p[i] = v; } else p[i] = put(rnd(0, 5) ? (double)rnd(0, hi) : NAN); } return p; }
int *vc_iarray(int n, int lo, int hi) { if (n < 0) reject(); int *p = (int *)block(sizeof(int) * n); for (int i = 0; i < n; i++) p[i] = vc_int(lo, hi); return p; }
void vc_assume(bool c) { if (!c) reject(); }
void vc_ensure(bool c, const char *name) {
  if (c) return;
  if (!failed) snprintf(S->msg, sizeof S->msg, "%s", name);
  failed = true; throw VcFail();
}
void vc_cover(const char *) {}
int vc_pin(int x, int lo, int hi) { if (x < lo || x > hi) reject(); return x; }
bool vc_same(double a, double b) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  double m = std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
  return std::fabs(a - b) <= 1e-7 * m;
}
bool vc_le(double a, double b) { return a <= b || vc_same(a, b); }
bool vc_symbolic(void) { return false; }
void vc_bounded(void) {}
void vc_ctx(const void *) {}
void vc_ghost(int) {}
void vc_frame() {}
void vc_check_overflow(void) {}
}
static int once(void (*f)()) {           // 0 ok, 3 fail, 4 rejected
  rejected = failed = false;
  try { f(); }
  catch (VcReject &) {}
  catch (VcFail &) {}
  catch (std::exception &e) { if (!rejected && !failed) { failed = true; snprintf(S->msg, sizeof S->msg, "no-unexpected-exception: %s", e.what()); } }
  catch (const char *e) { if (!rejected && !failed) { failed = true; snprintf(S->msg, sizeof S->msg, "no-unexpected-exception: %s", e); } }
  catch (...) { if (!rejected && !failed) { failed = true; snprintf(S->msg, sizeof S->msg, "no-unexpected-exception"); } }
  for (void *p : blocks) free(p);
  blocks.clear();
  return failed ? 3 : rejected ? 4 : 0;
}
static void onalarm(int) { snprintf(S->msg, sizeof S->msg, "termination (no result within the time limit)"); _exit(3); }
static void arm(int s) { itimerval it{}; it.it_value.tv_sec = s; setitimer(ITIMER_VIRTUAL, &it, nullptr); }
extern "C" const char *__asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:exitcode=99:handle_abort=1"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0"; }
int main(int argc, char **argv) {
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string mode = argc > 1 ? argv[1] : "list";
  if (mode == "list") { for (auto &r : regs()) puts(r.n); return 0; }
  void (*f)() = nullptr;
  for (auto &r : regs()) if (!strcmp(r.n, argv[2])) f = r.f;
  if (!f) { fprintf(stderr, "no such harness\n"); return 2; }
  signal(SIGVTALRM, onalarm);
  if (mode == "replay") {
    std::ifstream in(argv[3]); std::string tok;
    while (in >> tok) {
      if (tok[0] == '#') { std::getline(in, tok); continue; }
      tape.push_back(strtod(tok.c_str(), nullptr));
    }
    replaying = true; S->msg[0] = 0;
    pid_t pid = fork();
    if (pid == 0) { arm(20); _exit(once(f)); }
    int st; waitpid(pid, &st, 0);
    int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 99;
    if (rc != 0 && rc != 4) { if (!S->msg[0]) snprintf(S->msg, sizeof S->msg, "crash or sanitizer report"); printf("FAILED %s\n", S->msg); return 3; }
    puts(rc == 4 ? "REJECTED" : "OK"); return rc;
  }
  long seed = atol(argv[3]); double secs = atof(argv[4]);
  auto t0 = std::chrono::steady_clock::now();
  pid_t pid = fork();
  if (pid == 0) {
    if (!freopen("/dev/null", "w", stdout)) {}
    rng.seed(seed);
    for (long it = 0;; it++) {
      double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      if (el > secs) break;
      sz = it % 40 == 0 ? 40 : it % 10 == 0 ? 12 : 2 + it % 5; style = rnd(0, 3);
      S->n = 0; S->msg[0] = 0; S->state = 1;
      arm(20);
      int rc = once(f);
      S->iters++; if (rc == 4) S->rejected++;
      if (rc == 3) _exit(3);
    }
    arm(0);
    S->state = 2; _exit(0);
  }
  int st; waitpid(pid, &st, 0);
  int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 99;
  printf("iterations %ld rejected %ld\n", S->iters, S->rejected);
  if (rc == 0) return 0;
  if (!S->msg[0]) snprintf(S->msg, sizeof S->msg, "crash or sanitizer report");
  std::ofstream o(argv[5]); o.precision(17);
  o << "# harness " << argv[2] << "\n# failed " << S->msg << "\n";
  for (int i = 0; i < S->n; i++) o << S->t[i] << "\n";
  printf("FAILED %s\n", S->msg);
  return 3;
}
