#define LAPACK_NORM_UNUSED
#include "mat.h"
#include "solvers.h"
#include "/repo/src/ldt_math/optimization/newton.cpp"
#ifdef VC_NATIVE
#include "/repo/src/helpers.cpp"
#endif
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
struct Quad { int k; double A[9], b[3]; double f(const Mat &x) const { double s = 0; for (int i = 0; i < k; i++) { double t = 0; for (int j = 0; j < k; j++) t += A[i + k * j] * x.Data[j]; s += x.Data[i] * (t / 2 + b[i]); } return s; }
  double g(const Mat &x, int i) const { double t = b[i]; for (int j = 0; j < k; j++) t += A[i + k * j] * x.Data[j]; return t; } };
// one full step from any point reaches the stationary point of a quadratic; the reported value and gradient are those of the returned point
static void quad(int k, bool line, bool two, int iters, bool pd) {
  vc_bounded(); Quad q; q.k = k; for (int i = 0; i < k; i++) { q.b[i] = vc_real(); for (int j = 0; j <= i; j++) q.A[i + k * j] = q.A[j + k * i] = vc_real(); }
  if (!vc_symbolic() && pd) { double L[9]; for (int i = 0; i < 9; i++) L[i] = q.A[i % (k * k)]; for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { double s = i == j ? 1 : 0; for (int l = 0; l < k; l++) s += L[i + k * l] * L[j + k * l]; q.A[i + k * j] = s; } }
  double m1 = q.A[0], m2 = k > 1 ? q.A[0] * q.A[k + 1] - q.A[1] * q.A[1] : 1; bool spd = m1 > 0 && m2 > 0; vc_assume(spd == pd && (vc_symbolic() || (k < 3 && (m2 > 0.01 || m2 < -0.01) && (m1 > 0.01 || m1 < -0.01))));
  double x[4], x0[4]; for (int i = 0; i < k; i++) x[i] = x0[i] = vc_real(); x[k] = 77; Mat X(x, k, 1); if (!vc_symbolic()) for (int i = 0; i < k; i++) vc_assume(x[i] < 1e4 && x[i] > -1e4 && q.b[i] < 1e4 && q.b[i] > -1e4 && q.A[i] < 1e3 && q.A[i] > -1e3);
  Newton n(k); n.IterationMax = iters; n.UseLineSearch = line; n.TolFunction = 0; std::vector<double> s(n.StorageSize + 1, 77), h(k * k + 1, 77), w(n.WorkSize + 1, 77); double f0 = q.f(X);
  auto F = [&](const Mat &p) { ENSURE(p.length() == k); return q.f(p); }; auto Gr = [&](const Mat &p, Mat &g) { for (int i = 0; i < k; i++) g.Data[i] = q.g(p, i); }; auto H = [&](const Mat &, Mat &o) { for (int i = 0; i < k * k; i++) o.Data[i] = q.A[i]; };
  bool still = true; for (int i = 0; i < k; i++) still = still && q.g(X, i) == 0;
  bool th = vc_throws([&] { if (two) n.Minimize2(F, Gr, H, X, s.data(), h.data(), w.data()); else n.Minimize(F, Gr, H, X, s.data(), w.data()); });
  ENSURE(x[k] == 77 && s.back() == 77 && h.back() == 77 && w.back() == 77); if (iters > 0) ENSURE(th == !pd); else ENSURE(!th); if (th) return;
  ENSURE(n.X == &X && n.Gradient.length() == k && n.Hessian.RowsCount == k && n.Hessian.ColsCount == k); ENSURE(vc_same(n.FunctionValue, q.f(X)) || !vc_symbolic());
  for (int i = 0; i < k; i++) { double g = q.g(X, i); if (iters == 0) ENSURE(x[i] == x0[i]); else if (vc_symbolic()) ENSURE(g == 0); else { double sc = 1; for (int j = 0; j < k; j++) sc += std::abs(x0[j]) + std::abs(q.b[j]) + std::abs(q.A[j]) + std::abs(q.A[k + j]); ENSURE(std::abs(g) < 1e-6 * sc * sc * sc); } if (vc_symbolic()) ENSURE(n.Gradient.Data[i] == g); else ENSURE(std::abs(n.Gradient.Data[i] - g) < 1e-9 * (1 + std::abs(x[0]) + std::abs(f0))); }
  ENSURE(n.Iteration == iters);
}
HARNESS(newton1) { quad(1, true, vc_pin(vc_bool(), 0, 1), dim(0, 2), true); }
HARNESS(newton1_plain) { quad(1, false, vc_pin(vc_bool(), 0, 1), dim(0, 2), true); }
HARNESS(newton2) { quad(2, true, false, 1, true); }
HARNESS(newton2_plain) { quad(2, false, true, 1, true); }
HARNESS(newton1_no) { quad(1, vc_pin(vc_bool(), 0, 1), false, dim(0, 1), false); }
HARNESS(newton2_no) { quad(2, vc_pin(vc_bool(), 0, 1), false, 1, false); }
// the gradient tolerance is tested before every step, the change of the value after it
HARNESS(newton_stops) { vc_bounded(); double a = vc_posreal(), b = vc_real(), x = vc_real(), x0 = x, tg = vc_posreal(), tf = vc_pin(vc_bool(), 0, 1) ? vc_posreal() : 0; vc_assume(vc_symbolic() || (a > 0.001 && a < 1e3 && tg > 0.0001 && tg < 1e3 && b < 1e4 && b > -1e4 && x < 1e4 && x > -1e4));
  Mat X(&x, 1, 1); Newton n(1); n.TolGradient = tg; n.TolFunction = tf; n.UseLineSearch = vc_pin(vc_bool(), 0, 1); n.IterationMax = 3; std::vector<double> s(n.StorageSize), w(n.WorkSize); double g0 = a * x + b; vc_assume(g0 < 0 ? -g0 != tg : g0 != tg);
  vc_assume(vc_symbolic() || std::abs(std::abs(g0) - tg) > 1e-9 * tg); bool th = vc_throws([&] { n.Minimize([&](const Mat &p) { return p.Data[0] * (a / 2 * p.Data[0] + b); }, [&](const Mat &p, Mat &g) { g.Data[0] = a * p.Data[0] + b; }, [&](const Mat &, Mat &h) { h.Data[0] = a; }, X, s.data(), w.data()); });
  ENSURE(!th); bool small = (g0 < 0 ? -g0 : g0) < tg; if (small) ENSURE(x == x0 && n.Iteration == 0); else { double g = a * x + b; if (vc_symbolic()) ENSURE(g == 0 && n.Gradient.Data[0] == 0); else ENSURE(std::abs(g) < 1e-6 * (1 + std::abs(b) + a * std::abs(x0))); ENSURE(n.Iteration <= 1); } }
#ifdef VC_NATIVE
// a convex function that is no quadratic: never worse than the start, the value and the gradient belong to the returned point
HARNESS(nat_newton_convex) { int k = dim(1, 3); double c[3], b[3], x[4], x0v[3]; for (int i = 0; i < k; i++) { c[i] = 0.5 + vc_int(0, 40) / 20.0; b[i] = vc_int(-50, 50) / 20.0; x[i] = x0v[i] = vc_int(-60, 60) / 20.0; } x[k] = 77; double r = vc_int(0, 20) / 20.0; Mat X(x, k, 1);
  auto F = [&](const Mat &p) { double s = 0, t = 0; for (int i = 0; i < k; i++) { double v = p.Data[i]; s += c[i] * v * v * v * v / 4 + v * v / 2 + b[i] * v; t += v; } return s + r * t * t / 2; };
  auto Gr = [&](const Mat &p, Mat &g) { double t = 0; for (int i = 0; i < k; i++) t += p.Data[i]; for (int i = 0; i < k; i++) { double v = p.Data[i]; g.Data[i] = c[i] * v * v * v + v + b[i] + r * t; } };
  auto H = [&](const Mat &p, Mat &h) { for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) h.Data[i + k * j] = r + (i == j ? 3 * c[i] * p.Data[i] * p.Data[i] + 1 : 0); };
  Newton n(k); n.IterationMax = vc_int(0, 60); n.UseLineSearch = vc_bool(); n.TolGradient = vc_bool() ? 1e-5 : 0; n.TolFunction = vc_bool() ? 1e-10 : 0; if (!n.TolGradient && !n.TolFunction) n.IterationMax = vc_int(0, 3); std::vector<double> s(n.StorageSize + 1, 77), w(n.WorkSize + 1, 77); double f0 = F(X);
  bool th = vc_throws([&] { n.Minimize(F, Gr, H, X, s.data(), w.data()); }); ENSURE(!th && s.back() == 77 && w.back() == 77 && x[k] == 77); double gg[3]; Mat g(gg, k, 1); Gr(X, g); ENSURE(vc_same(F(X), n.FunctionValue)); double m = 0; for (int i = 0; i < k; i++) { ENSURE(vc_same(gg[i], n.Gradient.Data[i])); m += gg[i] * gg[i]; }
  if (n.UseLineSearch) ENSURE(n.FunctionValue <= f0 + 1e-12 * (1 + std::abs(f0))); ENSURE(n.Iteration <= n.IterationMax); if (n.Iteration < n.IterationMax && n.TolGradient && !n.TolFunction) ENSURE(std::sqrt(m) < 1e-5); }
#endif
