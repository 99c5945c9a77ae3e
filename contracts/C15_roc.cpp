#include "vec.h"
#include "/repo/src/array.cpp"
#include "/repo/src/ldt_base.cpp"
#include "/repo/src/matrix/matrix.cpp"
#include "/repo/src/ldt_math/auc.cpp"
#include "/repo/src/ldt_statistics/scoring/roc.cpp"
using namespace ldt;
// Mann-Whitney: share of (positive, negative) pairs in which the positive
// observation has the smaller score, ties count one half
static double mw(const double *y, const double *s, const double *wp, const double *wn, int n, double tie = 0.5) {
  double r = 0, P = 0, N = 0;
  for (int i = 0; i < n; i++) {
    if (y[i] != 0) P += wp[i]; else N += wn[i];
    if (y[i] == 0) continue;
    for (int j = 0; j < n; j++) if (y[j] == 0) r += s[i] < s[j] ? wp[i] * wn[j] : s[i] == s[j] ? wp[i] * wn[j] * tie : 0;
  }
  return r / (P * N);
}
template <bool W, bool C> static void auc(int n) {
  double *s = vc_array(n), *w = W ? vc_array_pos(n) : nullptr, *cost = C ? vc_array_pos(n) : nullptr, *cm = C ? vc_array_pos(4) : nullptr;
  double y[12], wp[12], wn[12]; bool p = false, q = false;
  for (int i = 0; i < n; i++) { bool b = vc_bool(); if (b) { y[i] = 1; p = true; } else { y[i] = 0; q = true; } }
  vc_assume(p && q);
  Matrix<double> Y(y, n, 1), S(s, n, 1), Wm(w, n, 1);
  RocOptions o; o.NormalizePoints = vc_bool(); o.Pessimistic = vc_bool();
  if (C) { o.Costs.SetData(cost, n, 1); o.CostMatrix.SetData(cm, 2, 2); }
  for (int i = 0; i < n; i++) {
    wp[i] = wn[i] = W ? w[i] : 1;
    if (C) {
      double b = cm[0] * cost[i] - cm[2], c = cm[3] - cm[1] * cost[i];
      vc_assume(b > 0 && c > 0); wp[i] *= b; wn[i] *= c;
    }
  }
  ROC<W, C> r;
  r.Calculate(Y, S, W ? &Wm : nullptr, o);
  ENSURE(vc_same(r.Result, mw(y, s, wp, wn, n, o.Pessimistic ? 0 : 0.5)));
  int k = r.Points.size(); double P = 0, N = 0;
  for (int i = 0; i < n; i++) if (y[i] != 0) P += wp[i]; else N += wn[i];
  if (o.NormalizePoints) P = N = 1;
  ENSURE(std::get<0>(r.Points[0]) == 0 && std::get<1>(r.Points[0]) == 0 && vc_same(std::get<0>(r.Points[k - 1]), N) && vc_same(std::get<1>(r.Points[k - 1]), P));
  for (int i = 1; i < k; i++) ENSURE(vc_le(std::get<0>(r.Points[i - 1]), std::get<0>(r.Points[i])) && vc_le(std::get<1>(r.Points[i - 1]), std::get<1>(r.Points[i])));
}
HARNESS(auc2) { vc_bounded(); auc<false, false>(2); }
HARNESS(auc3) { vc_bounded(); auc<false, false>(3); }
HARNESS(auc2_w) { vc_bounded(); auc<true, false>(2); }
HARNESS(auc3_w) { vc_bounded(); auc<true, false>(3); }
HARNESS(auc2_wc) { vc_bounded(); auc<true, true>(2); }

// partial: area under the (normalised) curve between two false positive rates,
// divided by the width
static double between(const std::vector<std::tuple<double, double>> &p, double L, double U) {
  double r = 0;
  for (int i = 1; i < (int)p.size(); i++) {
    double x0 = std::get<0>(p[i - 1]), y0 = std::get<1>(p[i - 1]), x1 = std::get<0>(p[i]), y1 = std::get<1>(p[i]);
    if (!(x1 > x0)) continue;
    double a = x0 > L ? x0 : L, b = x1 < U ? x1 : U;
    if (a >= b) continue;
    double sl = (y1 - y0) / (x1 - x0);
    r += (b - a) * (y0 + (a - x0) * sl + y0 + (b - x0) * sl) / 2;
  }
  return r / (U - L);
}
template <bool W> static void partial(int n) {
  double *s = vc_array(n), *w = W ? vc_array_pos(n) : nullptr, y[12]; bool p = false, q = false;
  for (int i = 0; i < n; i++) { bool b = vc_bool(); if (b) { y[i] = 1; p = true; } else { y[i] = 0; q = true; } }
  vc_assume(p && q);
  Matrix<double> Y(y, n, 1), S(s, n, 1), Wm(w, n, 1);
  RocOptions o; o.NormalizePoints = vc_bool(); o.Pessimistic = vc_bool();
  double L = o.LowerThreshold = vc_real(), U = o.UpperThreshold = vc_real();
  ROC<W, false> r;
  bool t = vc_throws([&] { r.Calculate(Y, S, W ? &Wm : nullptr, o); });
  if (L != U) ENSURE(t == (L < 0 || U > 1 || L > U));
  if (t || L == U) return;
  ENSURE(vc_same(r.Result, between(r.Points, L, U)));
}
HARNESS(partial2) { vc_bounded(); partial<false>(2); }
#ifdef VC_NATIVE
static double frac01() { return vc_int(0, 8) / 8.0; }
HARNESS(nat_partial) {
  int n = vc_size(2, 10); double s[12], y[12], w[12]; bool p = false, q = false, W = vc_bool();
  for (int i = 0; i < n; i++) { s[i] = vc_int(0, 4) / 4.0; y[i] = vc_bool(); w[i] = vc_posreal(); (y[i] ? p : q) = true; }
  vc_assume(p && q);
  Matrix<double> Y(y, n, 1), S(s, n, 1), Wm(w, n, 1);
  RocOptions o; o.NormalizePoints = vc_bool(); o.Pessimistic = vc_bool();
  double L = o.LowerThreshold = frac01(), U = o.UpperThreshold = frac01(); vc_assume(L < U);
  ROC<true, false> r; ROC<false, false> r0; RocBase *b = W ? (RocBase *)&r : &r0;
  b->Calculate(Y, S, &Wm, o);
  ENSURE(vc_same(b->Result, between(b->Points, L, U)));
}
// groups of scores that differ by at most epsilon from the first of the group are ties
HARNESS(nat_auc) {
  int n = vc_size(2, 12); double s[12], y[12], w[12], wp[12], wn[12], xi[12], g[12]; bool p = false, q = false, W = vc_bool(), C = vc_bool(), X = vc_bool();
  double cm[4] = {5, -1, 1, 2};
  for (int i = 0; i < n; i++) {
    s[i] = vc_int(0, 8) / 8.0; y[i] = vc_bool(); w[i] = vc_posreal(); xi[i] = vc_int(1, 4); (y[i] ? p : q) = true;
    double x = X ? xi[i] : 1;
    wp[i] = (W ? w[i] : 1) * (C ? cm[0] * x - cm[2] : 1); wn[i] = (W ? w[i] : 1) * (C ? cm[3] - cm[1] * x : 1);
  }
  vc_assume(p && q);
  Matrix<double> Y(y, n, 1), S(s, n, 1), Wm(w, n, 1);
  RocOptions o; o.NormalizePoints = vc_bool(); o.Pessimistic = vc_bool(); o.Epsilon = vc_int(0, 2) / 8.0;
  if (X) o.Costs.SetData(xi, n, 1);
  o.CostMatrix.SetData(cm, 2, 2);
  std::vector<double> u(s, s + n); std::sort(u.begin(), u.end());
  for (int i = 0; i < n; i++) { double st = u[0]; for (double v : u) { if (v > s[i]) break; if (std::fabs(v - st) > o.Epsilon) st = v; } g[i] = st; }
  ROC<true, true> a; ROC<true, false> b; ROC<false, true> c; ROC<false, false> d;
  RocBase *r = W ? (C ? (RocBase *)&a : &b) : (C ? (RocBase *)&c : &d);
  r->Calculate(Y, S, &Wm, o);
  ENSURE(vc_same(r->Result, mw(y, g, wp, wn, n, o.Pessimistic ? 0 : 0.5)));
}
#endif
#ifdef VC_NATIVE
HARNESS(nat_again) { // a second calculation is not affected by the first one
  int n = vc_int(2, 12), m = vc_int(2, 12); std::vector<double> y(n), s(n), w(n), z(m), t(m), v(m); for (int i = 0; i < n; i++) { y[i] = i < 2 ? i : vc_int(0, 1); s[i] = vc_int(0, 5) / 4.0; w[i] = vc_int(1, 4); } for (int i = 0; i < m; i++) { z[i] = i < 2 ? i : vc_int(0, 1); t[i] = vc_int(0, 5) / 4.0; v[i] = vc_int(1, 4); }
  Matrix<double> Y(y.data(), n, 1), S(s.data(), n, 1), W(w.data(), n, 1), Z(z.data(), m, 1), T(t.data(), m, 1), V(v.data(), m, 1); RocOptions o, p; o.NormalizePoints = vc_bool(); p.NormalizePoints = vc_bool(); o.Pessimistic = vc_bool(); p.Pessimistic = vc_bool(); if (vc_bool()) { o.LowerThreshold = 0.25; o.UpperThreshold = 0.75; }
  ROC<true, false> a, b; a.Calculate(Y, S, &W, o); a.Calculate(Z, T, &V, p); b.Calculate(Z, T, &V, p); ENSURE(vc_same(a.Result, b.Result) && vc_same(b.Result, mw(z.data(), t.data(), v.data(), v.data(), m, p.Pessimistic ? 0 : 0.5)) && a.Points.size() == b.Points.size()); for (size_t i = 0; i < a.Points.size(); i++) ENSURE(a.Points[i] == b.Points[i]);
}
#endif
