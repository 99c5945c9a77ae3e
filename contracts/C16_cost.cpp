#include "vec.h"
#include "/repo/src/array.cpp"
#include "/repo/src/ldt_base.cpp"
#include "/repo/src/matrix/matrix.cpp"
#include "/repo/src/ldt_statistics/scoring/frequency_cost.cpp"
using namespace ldt;
// cost of an observation: the row of the first threshold that is not below the
// probability of its class (the last row above all), column of its class
static double cost_of(const double *c, int rows, double prob, int cls) {
  int r = rows - 1;
  for (int k = rows - 2; k >= 0; k--) if (c[k] >= prob) r = k;
  return c[rows * (cls + 1) + r];
}
// y: classes (or missing), s: n x K probabilities, c: rows x (K+1) cost table
template <bool W> static void one(int n, int K, int rows, int tables) {
  double y[4], *s = vc_array(n * K), *w = W ? vc_array_pos(n) : nullptr;
  double *c[2]; for (int t = 0; t < tables; t++) c[t] = vc_array(rows * (K + 1));
  bool miss[4]; int cls[4];
  for (int i = 0; i < n; i++) { miss[i] = vc_bool(); cls[i] = vc_pin(vc_int(0, K - 1), 0, K - 1); if (miss[i]) y[i] = NAN; else y[i] = cls[i]; }
  Matrix<double> Y(y, n, 1), S(s, n, K), Wm(w, n, 1);
  std::vector<Matrix<double>> costs; costs.reserve(2);
  for (int t = 0; t < tables; t++) costs.push_back(Matrix<double>(c[t], rows, K + 1));
  double st[4]; FrequencyCost<W> f(tables); ENSURE(f.StorageSize == 2 * tables);
  f.Calculate(costs, Y, S, W ? &Wm : nullptr, st);
  double avg = 0, N = 0;
  for (int i = 0; i < n; i++) if (!miss[i]) N += W ? w[i] : 1;
  for (int t = 0; t < tables; t++) {
    double e = 0;
    for (int i = 0; i < n; i++) if (!miss[i]) e += (W ? w[i] : 1) * cost_of(c[t], rows, s[i + n * cls[i]], cls[i]);
    ENSURE(vc_same(f.CostSums.Data[t], e) && vc_same(f.CostCounts.Data[t], N));
    if (N > 0) avg += e / N / tables;
  }
  if (N > 0) ENSURE(vc_same(f.AverageRatio, avg));
}
HARNESS(one_table) { vc_bounded(); one<false>(2, 2, 2, 1); }
HARNESS(one_table_w) { vc_bounded(); one<true>(2, 2, 2, 1); }
HARNESS(two_tables_w) { vc_bounded(); one<true>(1, 2, 3, 2); }
// any number of observations and rows: one class, one table
struct Ctx { const double *c, *s, *w, *y; int rows; };
SPEC double spec_row(const double *c, int rows, double p, int k) { return k >= rows - 1 ? c[rows + rows - 1] : c[k] >= p ? c[rows + k] : spec_row(c, rows, p, k + 1); }
CAND bool cand_all__row(const Ctx *c, int i, int k) { return spec_row(c->c, c->rows, c->s[i], 0) == spec_row(c->c, c->rows, c->s[i], k); }
SPEC double spec_cost(const double *c, int rows, const double *s, const double *w, const double *y, int n) {
  if (n <= 0) return 0;
  double r = spec_cost(c, rows, s, w, y, n - 1);
  if (std::isnan(y[n - 1])) return r;
  return r + spec_row(c, rows, s[n - 1], 0) * (w ? w[n - 1] : 1);
}
SPEC double spec_count(const double *w, const double *y, int n) { return n <= 0 ? 0 : spec_count(w, y, n - 1) + (std::isnan(y[n - 1]) ? 0 : w ? w[n - 1] : 1); }
CAND bool cand_all__s(const Ctx *c, double a, int i) { return a == spec_cost(c->c, c->rows, c->s, c->w, c->y, i); }
CAND bool cand_all__n(const Ctx *c, double a, int i) { return a == spec_count(c->w, c->y, i); }
template <bool W> static void any() {
  int n = vc_size(1, 100000), rows = vc_size(2, 1000);
  double *c = vc_array(2 * rows), *p = vc_array(n), *w = W ? vc_array_pos(n) : nullptr, *y = vc_array_class(n, 0);
  Ctx x{c, p, w, y, rows}; vc_ctx(&x);
  Matrix<double> Y(y, n, 1), S(p, n, 1), Wm(w, n, 1), cm(c, rows, 2); VecView<Matrix<double>> v(&cm, 1);
  double st[2]; FrequencyCost<W> f(1); f.Calculate(v.v(), Y, S, W ? &Wm : nullptr, st);
  ENSURE(vc_same(f.CostSums.Data[0], spec_cost(c, rows, p, w, y, n)) && vc_same(f.CostCounts.Data[0], spec_count(w, y, n)));
}
HARNESS(any_rows) { any<false>(); }
HARNESS(any_rows_w) { any<true>(); }
// ---- valid tables: thresholds in [0,1], strictly ascending, at least two rows, one column per class
struct CCtx { const double *c; int rows; };
SPEC bool spec_valid(const double *c, int k, int n) { return k >= n ? true : c[k] >= 0 && c[k] <= 1 && (k == 0 || c[k] > c[k - 1]) && spec_valid(c, k + 1, n); }
CAND bool cand_all__a(const CCtx *c, int i) { return spec_valid(c->c, 0, c->rows) == spec_valid(c->c, i, c->rows); }
CAND bool cand_all__b(const CCtx *c, double pre, int i) { return i == 0 || pre == c->c[i - 1]; }
template <bool W> static void check() {
  int rows = vc_size(0, 100000), cols = vc_size(0, 100), K = vc_size(1, 100); double *c = vc_array(rows * cols);
  Matrix<double> m(c, rows, cols); CCtx x{c, rows}; vc_ctx(&x);
  bool t = vc_throws([&] { FrequencyCost<W>::Check(m, K); });
  if (rows <= 1 || cols != K + 1) ENSURE(t);
  else ENSURE(t == !spec_valid(c, 0, rows));
}
HARNESS(check) { check<false>(); }
HARNESS(check_w) { check<true>(); }
#ifdef VC_NATIVE
static void nat_cost(FrequencyCostBase *f, int T, bool W, std::vector<double> &st) {
  int n = vc_size(1, 10), K = vc_size(2, 4); int R[4];
  std::vector<double> y(n), s(n * K), w(n); std::vector<std::vector<double>> c(T);
  for (auto &v : s) v = vc_int(0, 8) / 8.0;
  for (int i = 0; i < n; i++) { w[i] = vc_posreal(); y[i] = vc_int(0, 4) ? vc_int(0, K - 1) : NAN; }
  std::vector<Matrix<double>> cs;
  for (auto &v : c) { int rows = vc_int(2, 5); R[&v - &c[0]] = rows; v.resize(rows * (K + 1)); double th = 0; for (int i = 0; i < rows; i++) v[i] = th += vc_int(1, 3) / 16.0; for (int i = rows; i < (int)v.size(); i++) v[i] = vc_int(0, 3); cs.push_back(Matrix<double>(v.data(), rows, K + 1)); }
  Matrix<double> Y(y.data(), n, 1), S(s.data(), n, K), Wm(w.data(), n, 1);
  f->Calculate(cs, Y, S, &Wm, st.data());
  double N = 0, avg = 0; for (int i = 0; i < n; i++) if (!std::isnan(y[i])) N += W ? w[i] : 1;
  for (int t = 0; t < T; t++) {
    double e = 0; for (int i = 0; i < n; i++) if (!std::isnan(y[i])) e += (W ? w[i] : 1) * cost_of(c[t].data(), R[t], s[i + n * (int)y[i]], (int)y[i]);
    ENSURE(vc_same(f->CostSums.Data[t], e) && vc_same(f->CostCounts.Data[t], N));
    avg += e / N / T;
  }
  if (N > 0) ENSURE(vc_same(f->AverageRatio, avg));
}
HARNESS(nat_cost) { int T = vc_int(1, 3); bool W = vc_bool(); std::vector<double> st(2 * T); FrequencyCost<true> a(T); FrequencyCost<false> b(T); FrequencyCostBase *f = W ? (FrequencyCostBase *)&a : &b; for (int k = vc_int(1, 3); k; k--) nat_cost(f, T, W, st); }
#endif
