#include "vec.h"
#include "/repo/src/ldt_base.cpp"
#include "/repo/src/ldt_math/auc.cpp"
using namespace ldt;
typedef std::tuple<double, double> Pt;
struct Ctx { const Pt *p; double base; };
// area between the polyline and the base line (trapezoids)
template <bool V> static double piece(const Pt &a, const Pt &b, double base) {
  double x0 = std::get<0>(a), y0 = std::get<1>(a), x1 = std::get<0>(b), y1 = std::get<1>(b);
  return V ? (y1 - y0) * ((x0 + x1) / 2 - base) : (x1 - x0) * ((y0 + y1) / 2 - base);
}
SPEC double spec_h(const Pt *p, int n, double base) { return n <= 1 ? 0 : spec_h(p, n - 1, base) + piece<false>(p[n - 2], p[n - 1], base); }
SPEC double spec_v(const Pt *p, int n, double base) { return n <= 1 ? 0 : spec_v(p, n - 1, base) + piece<true>(p[n - 2], p[n - 1], base); }
CAND bool cand_all__h(const Ctx *c, double R, int i) { return R == spec_h(c->p, i, c->base); }
CAND bool cand_all__v(const Ctx *c, double R, int i) { return R == spec_v(c->p, i, c->base); }
CAND bool cand_all__x(const Ctx *c, double x, int i) { return x == std::get<0>(c->p[i > 0 ? i - 1 : 0]); }
CAND bool cand_all__y(const Ctx *c, double y, int i) { return y == std::get<1>(c->p[i > 0 ? i - 1 : 0]); }
template <bool V> static void area() {
  int n = vc_size(0, 1000000); double *d = vc_array(2 * n), base = vc_real();
  VecView<Pt> v((Pt *)d, n);
  Ctx c{(Pt *)d, base}; vc_ctx(&c);
  AucPoints<V> a(v.v(), base);
  ENSURE(vc_same(a.Result, V ? spec_v((Pt *)d, n, base) : spec_h((Pt *)d, n, base)));
}
HARNESS(area_horizontal) { area<false>(); }
HARNESS(area_vertical) { area<true>(); }
