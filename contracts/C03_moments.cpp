#include "vc.h"
#include "/repo/src/array.cpp"
#include "/repo/src/ldt_base.cpp"
using namespace ldt;
struct Ctx { const double *x, *w; };
SPEC double spec_sum(const double *x, const double *w, int n, int k) {
  if (n <= 0) return 0;
  double v = x[n - 1];
  double r = spec_sum(x, w, n - 1, k);
  if (std::isnan(v)) return r;
  double ww = w[n - 1];
  if (k == 0) return r + ww;
  if (k == 1) return r + ww * v;
  if (k == 2) return r + ww * v * v;
  if (k == 3) return r + ww * v * v * v;
  return r + ww * v * v * v * v;
}
SPEC double spec_sum1(const double *x, int n, int k) {
  if (n <= 0) return 0;
  double v = x[n - 1];
  double r = spec_sum1(x, n - 1, k);
  if (std::isnan(v)) return r;
  if (k == 0) return r + 1;
  if (k == 1) return r + v;
  if (k == 2) return r + v * v;
  if (k == 3) return r + v * v * v;
  return r + v * v * v * v;
}
#define S(k) (c->w ? spec_sum(c->x, c->w, i, k) : spec_sum1(c->x, i, k))
CAND bool cand_all__s0(const Ctx *c, double W, int i) { return W >= 0 && W == S(0); }
CAND bool cand_all__s1(const Ctx *c, double W, double m, int i) { return W == S(0) && W * m == S(1); }
CAND bool cand_all__s2(const Ctx *c, double W, double m, double m2, int i) { return W == S(0) && W * m == S(1) && m2 + W * m * m == S(2); }
CAND bool cand_all__s3(const Ctx *c, double W, double m, double m2, double m3, int i) { return W == S(0) && W * m == S(1) && m2 + W * m * m == S(2) && m3 + 3 * m * m2 + W * m * m * m == S(3); }
CAND bool cand_all__s4(const Ctx *c, double W, double m, double m2, double m3, double m4, int i) { return W == S(0) && W * m == S(1) && m2 + W * m * m == S(2) && m3 + 3 * m * m2 + W * m * m * m == S(3) && m4 + 4 * m * m3 + 6 * m * m * m2 + W * m * m * m * m == S(4); }
#undef S
template <bool W, bool SK> static void mean_h() {
  int n = vc_size(0, 1000000); double *x = SK ? vc_array_nan(n) : vc_array(n), *w = W ? vc_array_pos(n) : nullptr;
  Ctx c{x, w}; vc_ctx(&c);
  double mean = Array<double>::Mean<W, SK>(x, n, w);
  double s0 = W ? spec_sum(x, w, n, 0) : spec_sum1(x, n, 0), s1 = W ? spec_sum(x, w, n, 1) : spec_sum1(x, n, 1);
  ENSURE(std::isnan(mean) == (s0 == 0));
  if (s0 != 0) ENSURE(vc_same(mean * s0, s1));
}
HARNESS(mean) { mean_h<false, false>(); }
HARNESS(mean_nan) { mean_h<false, true>(); }
HARNESS(mean_w) { mean_h<true, true>(); }
template <bool W, bool SK> static void var_h() {
  int n = vc_size(0, 1000000); double *x = SK ? vc_array_nan(n) : vc_array(n), *w = W ? vc_array_pos(n) : nullptr;
  Ctx c{x, w}; vc_ctx(&c);
  double mean, v;
  Array<double>::Moments<W, SK, 2>(x, n, w, mean, &v);
  double s0 = W ? spec_sum(x, w, n, 0) : spec_sum1(x, n, 0), s1 = W ? spec_sum(x, w, n, 1) : spec_sum1(x, n, 1), s2 = W ? spec_sum(x, w, n, 2) : spec_sum1(x, n, 2);
  ENSURE(std::isnan(mean) == (s0 == 0) && std::isnan(v) == (s0 == 0));
  if (s0 != 0) ENSURE(vc_same(mean * s0, s1) && vc_same((v + mean * mean) * s0, s2));
}
HARNESS(var) { var_h<false, false>(); }
HARNESS(var_nan) { var_h<false, true>(); }
HARNESS(var_w) { var_h<true, true>(); }
template <bool W, bool SK> static void all_h() {
  int n = vc_size(0, 1000000); double *x = SK ? vc_array_nan(n) : vc_array(n), *w = W ? vc_array_pos(n) : nullptr;
  Ctx c{x, w}; vc_ctx(&c);
  double m, v, s, k;
  Array<double>::Moments<W, SK, 4>(x, n, w, m, &v, &s, &k);
#define S(k) (W ? spec_sum(x, w, n, k) : spec_sum1(x, n, k))
  double s0 = S(0), s1 = S(1), s2 = S(2), s3 = S(3), s4 = S(4);
#undef S
  ENSURE(std::isnan(m) == (s0 == 0) && (s0 != 0 || (std::isnan(v) && std::isnan(s) && std::isnan(k))));
  if (s0 != 0) {
    ENSURE(vc_same(m * s0, s1) && vc_same((v + m * m) * s0, s2));
    if (v > 1e-3) {
      ENSURE(vc_same(s * std::sqrt(v) * v * s0, s3 - 3 * m * s2 + 3 * m * m * s1 - m * m * m * s0));
      ENSURE(vc_same((k + 3) * v * v * s0, s4 - 4 * m * s3 + 6 * m * m * s2 - 4 * m * m * m * s1 + m * m * m * m * s0));
    }
  }
}
HARNESS(all4) { all_h<false, false>(); }
HARNESS(all4_nan) { all_h<false, true>(); }
HARNESS(nat_all4_w) { all_h<true, true>(); }
