// any number of observations: the samples are the rows of the data in the order
// chosen by std::shuffle (its contract: the work array becomes a permutation)
#include "vec.h"
#include <cstring>
#include "/repo/src/array.cpp"
#include "/repo/src/ldt_base.cpp"
#include "/repo/src/matrix/matrix.cpp"
#include "/repo/src/ldt_statistics/data_split.cpp"
using namespace ldt;
static int *perm; static int permn, gg;
#ifndef VC_NATIVE
extern "C" NOINLINE __attribute__((used)) void replace___ZSt7shuffleIPiRSt23mersenne_twister_engineImLm32ELm624ELm397ELm31ELm2567483615ELm11ELm4294967295ELm7ELm2636928640ELm15ELm4022730752ELm18ELm1812433253EEEvT_S4_OT0_(int *a, int *b, std::mt19937 *) {
  ENSURE(b - a == permn && a[gg] == gg); // what is shuffled: all row numbers
  memcpy(a, perm, 4 * (long)permn);
}
#endif
struct Ctx { const double *d, *st; const int *p; int n, N0, g, cols; int *w; };
CAND bool cand_all__iota(const Ctx *c, int i) { return c->g >= i || c->w[c->g] == c->g; }
CAND bool cand_all__s0(const Ctx *c, int i) {
  for (int j = 0; j < c->cols; j++) if (!(c->g >= i || c->g >= c->N0 || c->st[c->g + j * c->N0] == c->d[c->p[c->g] + j * c->n])) return false;
  return true;
}
CAND bool cand_all__s1(const Ctx *c, int i) {
  int k = c->g - c->N0, b = c->cols * c->N0;
  for (int j = 0; j < c->cols; j++) if (!(k < 0 || k >= i || c->st[b + k + j * (c->n - c->N0)] == c->d[c->p[c->g] + j * c->n])) return false;
  return true;
}
static void any(int cols) {
  int n = vc_size(2, 100000), fix = vc_size(1, 100000); vc_assume(fix < n);
  double *d = vc_array(n * cols), *st = vc_array(n * cols); int *w = vc_iarray(n, 0, 0), *p = vc_iarray(n, 0, n - 1);
  int g = vc_int(0, 100000); vc_assume(g < n);
#ifdef VC_NATIVE
  for (int i = 0; i < n; i++) p[i] = i;
#endif
  perm = p; permn = n; gg = g;
  Ctx c{d, st, p, n, fix, g, cols, w}; vc_ctx(&c); vc_ghost(g); vc_ghost(g + fix);
  Matrix<double> data(d, n, cols);
  DataSplit s(n, cols); s.Calculate(data, st, 0, fix);
#ifdef VC_NATIVE
  std::mt19937 eng(vc_int(0, 1000)), e2 = eng; std::shuffle(p, p + n, e2);
  s.Shuffle(data, w, eng);
#else
  s.Shuffle(data, w, *(std::mt19937 *)nullptr);
#endif
  ENSURE(s.Sample0.RowsCount == fix && s.Sample1.RowsCount == n - fix && s.Sample0.ColsCount == cols && s.Sample1.ColsCount == cols);
  for (int j = 0; j < cols; j++)
    if (g < fix) ENSURE(s.Sample0.Data[g + j * fix] == d[p[g] + j * n]);
    else ENSURE(s.Sample1.Data[g - fix + j * (n - fix)] == d[p[g] + j * n]);
}
HARNESS(any1) { any(1); }
HARNESS(any2) { any(2); }
