#include "mat.h"
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
// op(A) op(B): TA, TB transposed; result m x n, k inner
template <bool TA, bool TB, class F> static void product(F f) {
  vc_bounded();
  int m = dim(1, 3), n = dim(1, 3), k = dim(1, 3); vc_assume(m + n + k <= 7);
  Buf a(m * k), b(k * n), c(m * n); double al = vc_real(), be = vc_bool() ? 0 : vc_real();
  Mat A(a.d, TA ? k : m, TA ? m : k), B(b.d, TB ? n : k, TB ? k : n), C(c.d, m, n);
  Mat W(c.d, m, n + 1), V(c.d, m + 1, n), A2(a.d, TA ? k + 1 : m, TA ? m : k + 1);
  ENSURE(vc_throws([&] { f(A, B, W, al, be); }) && vc_throws([&] { f(A, B, V, al, be); }) && vc_throws([&] { f(A2, B, C, al, be); }));
  f(A, B, C, al, be);
  is(C, m, n, [&](int i, int j) {
    double s = 0; for (int l = 0; l < k; l++) s += (TA ? a.o[l + k * i] : a.o[i + m * l]) * (TB ? b.o[j + n * l] : b.o[l + k * j]);
    return al * s + be * c.o[i + m * j];
  });
  a.unchanged(); b.unchanged();
}
HARNESS(dot) { product<false, false>([](Mat &A, Mat &B, Mat &C, double al, double be) { A.Dot(B, C, al, be); }); }
HARNESS(dot_tr) { product<false, true>([](Mat &A, Mat &B, Mat &C, double al, double be) { A.DotTr(B, C, al, be); }); }
HARNESS(tr_dot) { product<true, false>([](Mat &A, Mat &B, Mat &C, double al, double be) { A.TrDot(B, C, al, be); }); }
HARNESS(tr_dot_tr) { product<true, true>([](Mat &A, Mat &B, Mat &C, double al, double be) { A.TrDotTr(B, C, al, be); }); }
template <bool T> static void vec() {
  vc_bounded();
  int m = dim(1, 3), n = dim(1, 3), in = T ? m : n, out = T ? n : m; Buf a(m * n), b(4), c(4); double al = vc_real(), be = vc_real();
  Mat A(a.d, m, n), B(b.d, in, 1), C(c.d, out, 1), B2(b.d, in + 1, 1), C2(c.d, out + 1, 1), R(b.d, 1, 2);
  auto f = [&](Mat &x, Mat &y) { return vc_throws([&] { if (T) A.tDotVector(x, y, al, be); else A.DotVector(x, y, al, be); }); };
  ENSURE(f(B2, C) && f(B, C2) && f(R, C)); c.unchanged();
  ENSURE(!f(B, C));
  is(C, out, 1, [&](int i, int) { double s = 0; for (int l = 0; l < in; l++) s += (T ? a.o[l + m * i] : a.o[i + m * l]) * b.o[l]; return al * s + be * c.o[i]; });
  double d; ENSURE(vc_throws([&] { d = B.VectorDotVector(B2); }) && vc_throws([&] { d = R.VectorDotVector(B2); }));
}
HARNESS(dot_vector) { vec<false>(); }
HARNESS(tdot_vector) { vec<true>(); }
// with a diagonal matrix
HARNESS(dot_diag) {
  vc_bounded(); int m = dim(1, 3), n = dim(1, 3); Buf a(m * n), d(n), c(m * n), e(m); Mat A(a.d, m, n), D(d.d, n, 1), C(c.d, m, n), E(e.d, m, 1), W(c.d, m, n - 1);
  A.DotDiag(D, C); is(C, m, n, [&](int i, int j) { return a.o[i + m * j] * d.o[j]; });
  E.DiagDot(A, C); is(C, m, n, [&](int i, int j) { return e.o[i] * a.o[i + m * j]; });
  ENSURE(vc_throws([&] { A.DotDiag(D, W); }) && vc_throws([&] { E.DiagDot(A, W); }) && (m == n || (vc_throws([&] { A.DotDiag(E, C); }) && vc_throws([&] { D.DiagDot(A, C); }))));
}
// A A' and A'A; the lower triangle is written only on request
template <bool T> static void gram() {
  vc_bounded(); int m = dim(1, 3), n = dim(1, 3), r = T ? n : m, k = T ? m : n; bool low = dim(0, 1); Buf a(m * n), c(r * r); double al = vc_real(), be = vc_real();
  Mat A(a.d, m, n), C(c.d, r, r), W(c.d, r + 1, r), V(c.d, r, r + 1);
  ENSURE(vc_throws([&] { if (T) A.Dot_AtA(W, low, al, be); else A.Dot_AAt(W, low, al, be); }) && vc_throws([&] { if (T) A.Dot_AtA(V, low, al, be); else A.Dot_AAt(V, low, al, be); }));
  if (T) A.Dot_AtA(C, low, al, be); else A.Dot_AAt(C, low, al, be);
  is(C, r, r, [&](int i, int j) {
    if (i > j) { if (!low) return c.o[i + r * j]; int t = i; i = j; j = t; }
    double s = 0; for (int l = 0; l < k; l++) s += T ? a.o[l + m * i] * a.o[l + m * j] : a.o[i + m * l] * a.o[j + m * l];
    return al * s + be * c.o[i + r * j];
  });
  a.unchanged();
}
HARNESS(a_at) { gram<false>(); }
HARNESS(at_a) { gram<true>(); }
HARNESS(at_a_nan) {
  vc_bounded(); int m = dim(0, 3), n = dim(1, 2); bool low = dim(0, 1); Buf a(m * n, 1), c(n * n), k(n * n); Mat A(a.d, m, n), C(c.d, n, n), K(k.d, n, n), W(c.d, n, n + 1), V(c.d, n + 1, n);
  ENSURE(vc_throws([&] { A.Dot_AtA_nan(W, K, low); }) && vc_throws([&] { A.Dot_AtA_nan(C, V, low); }));
  A.Dot_AtA_nan(C, K, low);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    double s = 0; int q = 0; for (int l = 0; l < m; l++) if (!std::isnan(a.o[l + m * i]) && !std::isnan(a.o[l + m * j])) { s += a.o[l + m * i] * a.o[l + m * j]; q++; }
    if (i <= j || low) ENSURE(vc_same(c.d[i + n * j], s) && k.d[i + n * j] == q);
  }
}
// symmetric factor, given by its upper (lower) triangle only
HARNESS(sym_dot) {
  vc_bounded(); int m = dim(1, 3), n = dim(1, 2); bool up = dim(0, 1); Buf a(m * m), b(m * n), c(m * n); double al = vc_real(), be = vc_real(); Mat A(a.d, m, m), B(b.d, m, n), C(c.d, m, n), W(c.d, m, n + 1), V(a.d, m, m + 1);
  ENSURE(vc_throws([&] { A.SymDot(B, W, up, al, be); }) && vc_throws([&] { V.SymDot(B, C, up, al, be); }));
  A.SymDot(B, C, up, al, be);
  is(C, m, n, [&](int i, int j) { double s = 0; for (int l = 0; l < m; l++) { bool sw = up ? i > l : i < l; s += (sw ? a.o[l + m * i] : a.o[i + m * l]) * b.o[l + m * j]; } return al * s + be * c.o[i + m * j]; });
}
HARNESS(dot_sym) {
  vc_bounded(); int m = dim(1, 3), n = dim(1, 3); bool up = dim(0, 1); Buf a(n * n), b(m * n), c(m * n); double al = vc_real(), be = vc_real(); Mat A(a.d, n, n), B(b.d, m, n), C(c.d, m, n), W(c.d, m, n + 1), V(a.d, n, n + 1);
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { a.d[i + n * j] = a.d[j + n * i]; a.o[i + n * j] = a.o[j + n * i]; } // both triangles agree
  ENSURE(vc_throws([&] { B.DotSym(A, W, up, al, be); }) && vc_throws([&] { B.DotSym(V, C, up, al, be); }));
  B.DotSym(A, C, up, al, be);
  is(C, m, n, [&](int i, int j) { double s = 0; for (int l = 0; l < n; l++) s += b.o[i + m * l] * a.o[l + n * j]; return al * s + be * c.o[i + m * j]; });
}
// Kronecker products
HARNESS(kron) {
  vc_bounded(); int m = dim(1, 2), n = dim(1, 2), p = dim(1, 2), q = dim(1, 2); Buf a(m * n), b(p * q), c(16); Mat A(a.d, m, n), B(b.d, p, q), C(c.d, m * p, n * q), W(c.d, m * p, n * q - 1);
  ENSURE(vc_throws([&] { A.Kron(B, W); }));
  A.Kron(B, C); is(C, m * p, n * q, [&](int i, int j) { return a.o[i / p + m * (j / q)] * b.o[i % p + p * (j % q)]; });
}
HARNESS(kron_iden) {
  vc_bounded(); int m = dim(1, 2), n = dim(1, 2), h = dim(1, 2); Buf a(m * n), c(16); Mat A(a.d, m, n), C(c.d, m * h, n * h), D(c.d, n * h, m * h), W(c.d, m * h + 1, n * h), V(c.d, n * h + 1, m * h);
  A.KronIden(h, C); is(C, m * h, n * h, [&](int i, int j) { return i % h == j % h ? a.o[i / h + m * (j / h)] : 0; });
  A.IdenKron(h, C); is(C, m * h, n * h, [&](int i, int j) { return i / m == j / n ? a.o[i % m + m * (j % n)] : 0; });
  A.TrKronIden(h, D); is(D, n * h, m * h, [&](int i, int j) { return i % h == j % h ? a.o[j / h + m * (i / h)] : 0; });
  ENSURE(vc_throws([&] { A.KronIden(h, W); }) && vc_throws([&] { A.IdenKron(h, W); }) && vc_throws([&] { A.TrKronIden(h, V); }));
}
// A^-1 A = I
HARNESS(inv2x2) {
  vc_bounded(); Buf a(4); Mat A(a.d, 2, 2); vc_assume(!(a.o[0] * a.o[3] - a.o[1] * a.o[2] == 0)); ENSURE(A.Inv2x2() == 0);
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) ENSURE(vc_same(a.o[i] * a.d[2 * j] + a.o[i + 2] * a.d[2 * j + 1], i == j));
}
