#include "mat.h"
// element-wise operations on matrices of any size: g is an arbitrary element
struct Ctx { double *d; const double *want, *o; int g; };
CAND bool cand_all__done(const Ctx *c, int i) { return c->d[c->g] == (c->g < i ? *c->want : *c->o); }
static int rows, cols;
template <class F, class W> static void each(F f, W w) {
  int m = vc_size(1, 10000), n = vc_size(1, 10000); double *d = vc_array(m * n), *a = vc_array(m * n), *b = vc_array(m * n); int g = vc_int(0, 100000000); vc_assume(g < m * n);
  double o = d[g], want = w(a[g], b[g], o); Ctx c{d, &want, &o, g}; vc_ctx(&c); vc_ghost(g);
  Mat D(d, m, n), A(a, m, n), B(b, m, n); double ag = a[g], bg = b[g]; f(A, B, D); ENSURE(vc_same(d[g], want) && a[g] == ag && b[g] == bg);
}
HARNESS(add) { each([](Mat &A, Mat &B, Mat &D) { A.Add(B, D); }, [](double a, double b, double) { return a + b; }); }
HARNESS(subtract) { each([](Mat &A, Mat &B, Mat &D) { A.Subtract(B, D); }, [](double a, double b, double) { return a - b; }); }
HARNESS(multiply) { each([](Mat &A, Mat &B, Mat &D) { A.Multiply(B, D, 0); }, [](double a, double b, double) { return a * b; }); }
HARNESS(multiply_beta) { double be = vc_real(); vc_assume(!(be == 0)); each([&](Mat &A, Mat &B, Mat &D) { A.Multiply(B, D, be); }, [&](double a, double b, double o) { return a * b + be * o; }); }
HARNESS(add_s) { double v = vc_real(); each([&](Mat &A, Mat &, Mat &D) { A.Add(v, D); }, [&](double a, double, double) { return a + v; }); }
HARNESS(subtract_s) { double v = vc_real(); each([&](Mat &A, Mat &, Mat &D) { A.Subtract(v, D); }, [&](double a, double, double) { return a - v; }); }
HARNESS(multiply_s) { double v = vc_real(); each([&](Mat &A, Mat &, Mat &D) { A.Multiply(v, D, 0); }, [&](double a, double, double) { return a * v; }); }
HARNESS(multiply_s_beta) { double v = vc_real(), be = vc_real(); vc_assume(!(be == 0)); each([&](Mat &A, Mat &, Mat &D) { A.Multiply(v, D, be); }, [&](double a, double, double o) { return a * v + be * o; }); }
HARNESS(divide_s) { double v = vc_posreal(); each([&](Mat &A, Mat &, Mat &D) { A.Divide(v, D); }, [&](double a, double, double) { return a / v; }); }
HARNESS(add_in) { each([](Mat &A, Mat &, Mat &D) { D.Add_in(A); }, [](double a, double, double o) { return o + a; }); }
HARNESS(subtract_in) { each([](Mat &A, Mat &, Mat &D) { D.Subtract_in(A); }, [](double a, double, double o) { return o - a; }); }
HARNESS(multiply_in) { each([](Mat &A, Mat &, Mat &D) { D.Multiply_in(A); }, [](double a, double, double o) { return o * a; }); }
HARNESS(add_in_s) { double v = vc_real(); each([&](Mat &, Mat &, Mat &D) { D.Add_in(v); }, [&](double, double, double o) { return o + v; }); }
HARNESS(subtract_in_s) { double v = vc_real(); each([&](Mat &, Mat &, Mat &D) { D.Subtract_in(v); }, [&](double, double, double o) { return o - v; }); }
HARNESS(multiply_in_s) { double v = vc_real(); each([&](Mat &, Mat &, Mat &D) { D.Multiply_in(v); }, [&](double, double, double o) { return o * v; }); }
HARNESS(divide_in_s) { double v = vc_posreal(); each([&](Mat &, Mat &, Mat &D) { D.Divide_in(v); }, [&](double, double, double o) { return o / v; }); }
// division by a matrix without zeros
template <class F, class W> static void quotient(F f, W w) {
  int m = vc_size(1, 10000), n = vc_size(1, 10000); double *d = vc_array(m * n), *a = vc_array(m * n), *b = vc_array_pos(m * n); int g = vc_int(0, 100000000); vc_assume(g < m * n);
  double o = d[g], want = w(a[g], b[g], o); Ctx c{d, &want, &o, g}; vc_ctx(&c); vc_ghost(g);
  Mat D(d, m, n), A(a, m, n), B(b, m, n); f(A, B, D); ENSURE(vc_same(d[g], want));
}
HARNESS(divide) { quotient([](Mat &A, Mat &B, Mat &D) { A.Divide(B, D); }, [](double a, double b, double) { return a / b; }); }
HARNESS(divide_in) { quotient([](Mat &, Mat &B, Mat &D) { D.Divide_in(B); }, [](double, double b, double o) { return o / b; }); }
// sizes must agree
HARNESS(sizes) {
  vc_bounded(); int m = vc_int(0, 100), n = vc_int(0, 100), p = vc_int(0, 100), q = vc_int(0, 100); vc_assume(m != p || n != q); double *d = nullptr; double v = vc_real();
  Mat A(d, m, n), B(d, p, q), C(d, m, n);
  ENSURE(vc_throws([&] { A.Add(C, B); }) && vc_throws([&] { A.Add(B, C); }) && vc_throws([&] { A.Subtract(C, B); }) && vc_throws([&] { A.Subtract(B, C); }));
  ENSURE(vc_throws([&] { A.Multiply(C, B); }) && vc_throws([&] { A.Multiply(B, C); }) && vc_throws([&] { A.Divide(C, B); }) && vc_throws([&] { A.Divide(B, C); }));
  ENSURE(vc_throws([&] { A.Add(v, B); }) && vc_throws([&] { A.Subtract(v, B); }) && vc_throws([&] { A.Multiply(v, B); }) && vc_throws([&] { A.Divide(v, B); }));
  ENSURE(vc_throws([&] { A.Add_in(B); }) && vc_throws([&] { A.Subtract_in(B); }) && vc_throws([&] { A.Multiply_in(B); }) && vc_throws([&] { A.Divide_in(B); }));
}
// ---- sums over any number of elements
struct SCtx { const double *a, *b; int n; };
SPEC double spec_sum(const double *a, int n) { return n <= 0 ? 0 : spec_sum(a, n - 1) + a[n - 1]; }
SPEC double spec_dot(const double *a, const double *b, int n) { return n <= 0 ? 0 : spec_dot(a, b, n - 1) + a[n - 1] * b[n - 1]; }
CAND bool cand_all__sum(const SCtx *c, double s, int i) { return s == spec_sum(c->a, i); }
CAND bool cand_all__dot(const SCtx *c, double s, int i) { return s == spec_dot(c->a, c->b, i); }
HARNESS(sum) { int n = vc_size(0, 100000); double *a = vc_array(n); SCtx c{a, a, n}; vc_ctx(&c); Mat A(a, n, 1); ENSURE(vc_same(A.Sum(), spec_sum(a, n))); }
HARNESS(vector_dot) { int n = vc_size(0, 100000); double *a = vc_array(n), *b = vc_array(n); SCtx c{a, b, n}; vc_ctx(&c); Mat A(a, n, 1), B(b, n, 1); ENSURE(vc_same(A.VectorDotVector(B), spec_dot(a, b, n))); }
