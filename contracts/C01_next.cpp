#include "vc.h"
#include "/repo/src/ldt_statistics/modeling/search/searcher.cpp"
using namespace ldt;
// the step from one selection of partitions to the next one: for every length,
// and at every position k of the selection
struct Ctx { const int *g; int n, M, k; const int *free; };
CAND bool cand_next__top(const Ctx *c, int free, int cc) {
  return cc == c->n - free && (c->k < free || c->g[c->k] >= c->M - c->n + c->k);
}
CAND bool cand_next__fill(const Ctx *c, int i) {
  int f = *c->free;
  return f >= 1 && i >= f && c->g[f - 1] <= c->M - c->n + f - 1 && c->g[i - 1] == c->g[f - 1] + (i - f) && (c->k < f || c->k >= i || c->g[c->k] == c->g[f - 1] + (c->k - f + 1));
}
HARNESS(next) {
  int n = vc_size(1, 1000000), M = vc_int(1, 1000000), fix = vc_int(0, 1000000);
  vc_assume(n <= M && fix <= n);
  int *g = vc_iarray(n, 0, 1000000);
  int k = vc_int(0, 1000000);
  vc_assume(k < n);
  if (!vc_symbolic()) { // native runs: make the whole selection strictly increasing
    for (int i = 0; i < n; i++) { int lo = i ? g[i - 1] + 1 : 0, hi = M - n + i; g[i] = lo + g[i] % (hi - lo + 1); }
  }
  vc_assume(g[k] >= k && g[k] <= M - n + k);
  int old = g[k];
  int cc, T, free;
  Ctx c{g, n, M, k, &free}; vc_ctx(&c); vc_ghost(k);
  int last = g[n - 1];
  bool r = next(g, n, M, fix, cc, T, free);
  if (r) {
    ENSURE(free > fix && free <= n);
    ENSURE(k >= free - 1 || g[k] == old);
    ENSURE(k != free - 1 || (g[k] == old + 1 && old < M - n + k));
    ENSURE(k < free || (g[k] == g[free - 1] + (k - free + 1) && old == M - n + k));
    ENSURE(g[k] <= M - n + k);
  } else {
    ENSURE(k < fix || old == M - n + k);
    ENSURE(g[k] == old);
  }
}
