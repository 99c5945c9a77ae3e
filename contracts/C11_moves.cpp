#include "mat.h"
// all shapes up to 3 x 3 (and what the operations need)
template <class F> static void shapes(F f) { vc_bounded(); int m = vc_pin(vc_int(1, 3), 1, 3), n = vc_pin(vc_int(1, 3), 1, 3); f(m, n); }
HARNESS(access) {
  shapes([](int m, int n) {
    Buf a(m * n); Mat A(a.d, m, n); int i = vc_int(-1, 3), j = vc_int(-1, 3); double v = vc_real();
    i = vc_pin(i, -1, 3); j = vc_pin(j, -1, 3);
    bool in = i >= 0 && j >= 0 && i < m && j < n; int e = i + m * j;
    double x = 0; ENSURE(vc_throws([&] { x = A.Get(i, j); }) == !in); if (in) ENSURE(x == a.o[e]);
    ENSURE(vc_throws([&] { A.Set(i, j, v); }) == !in);
    is(A, m, n, [&](int p, int q) { return p == i && q == j ? v : a.o[p + m * q]; });
    ENSURE(vc_throws([&] { A.Set_Plus(i, j, v); }) == !in);
    is(A, m, n, [&](int p, int q) { return p == i && q == j ? v + v : a.o[p + m * q]; });
    ENSURE(vc_throws([&] { A.Set_Minus(i, j, 3 * v); }) == !in);
    is(A, m, n, [&](int p, int q) { return p == i && q == j ? -v : a.o[p + m * q]; });
  });
}
HARNESS(access_linear) {
  shapes([](int m, int n) {
    Buf a(m * n); Mat A(a.d, m, n); int i = vc_pin(vc_int(-1, 9), -1, 9); double v = vc_real(), x = 0; bool in = i >= 0 && i < m * n;
    ENSURE(vc_throws([&] { x = A.Get(i); }) == !in); if (in) ENSURE(x == a.o[i]);
    bool inv = n == 1 && in;
    ENSURE(vc_throws([&] { x = A.GetVector(i); }) == !inv); if (inv) ENSURE(x == a.o[i]);
    ENSURE(vc_throws([&] { A.Set(i, v); }) == !in);
    is(A, m, n, [&](int p, int q) { return p + m * q == i ? v : a.o[p + m * q]; });
    ENSURE(vc_throws([&] { A.SetVector(i, 2 * v); }) == !inv);
    is(A, m, n, [&](int p, int q) { return p + m * q == i ? (inv ? 2 * v : v) : a.o[p + m * q]; });
    if (in) { int r, c; A.TranslateIndex(i, r, c); ENSURE(r >= 0 && r < m && c >= 0 && c < n && r + m * c == i); }
    if (m > 0) { ENSURE(A.First() == A.Data[0] && A.Last() == A.Data[m * n - 1]); }
  });
}
HARNESS(restructure) {
  shapes([](int m, int n) {
    Buf a(m * n); Mat A(a.d, m, n); int p = vc_int(0, 20), q = vc_int(0, 20);
    ENSURE(vc_throws([&] { A.Restructure(p, q); }) == (p * q != m * n));
    if (p * q == m * n) ENSURE(A.RowsCount == p && A.ColsCount == q && A.length() == p * q && A.Data == a.d); else ENSURE(A.RowsCount == m && A.ColsCount == n);
    a.unchanged();
  });
}
HARNESS(fill) {
  shapes([](int m, int n) {
    Buf a(m * n); Mat A(a.d, m, n); double v = vc_real(), w = vc_real(); int k = vc_pin(vc_int(-1, 3), -1, 3);
    A.SetValue(v); is(A, m, n, [&](int, int) { return v; });
    A.SetSequence(v, w); is(A, m, n, [&](int i, int j) { return v + w * (i + m * j); });
    ENSURE(vc_throws([&] { A.SetValueDiag(v, w); }) == (m != n)); if (m == n) is(A, m, n, [&](int i, int j) { return i == j ? v : w; });
    A.SetValue(0); ENSURE(vc_throws([&] { A.SetValueDiag(v); }) == (m != n)); if (m == n) is(A, m, n, [&](int i, int j) { return i == j ? v : 0; });
    A.SetValue(v); ENSURE(vc_throws([&] { A.SetValueOffDiag(w); }) == (m != n)); if (m == n) is(A, m, n, [&](int i, int j) { return i == j ? v : w; });
    A.SetValue(0); ENSURE(vc_throws([&] { Mat::Diagonal(A, v, w); }) == (m != n)); if (m == n) is(A, m, n, [&](int i, int j) { return i == j ? v : w; });
    Buf b(m * n); Mat B(b.d, m, n); bool in = k >= 0 && k < m;
    ENSURE(vc_throws([&] { B.SetRow(k, v); }) == !in); is(B, m, n, [&](int i, int j) { return i == k ? v : b.o[i + m * j]; });
    ENSURE(vc_throws([&] { B.SetRow_plus(k, w); }) == !in); is(B, m, n, [&](int i, int j) { return i == k ? v + w : b.o[i + m * j]; });
    ENSURE(vc_throws([&] { B.SetRow_minus(k, v); }) == !in); is(B, m, n, [&](int i, int j) { return i == k ? w : b.o[i + m * j]; });
    Buf c(m * n); Mat C(c.d, m, n); in = k >= 0 && k < n;
    ENSURE(vc_throws([&] { C.SetColumn(k, v); }) == !in); is(C, m, n, [&](int i, int j) { return j == k ? v : c.o[i + m * j]; });
    ENSURE(vc_throws([&] { C.SetColumn_plus(k, w); }) == !in); is(C, m, n, [&](int i, int j) { return j == k ? v + w : c.o[i + m * j]; });
    ENSURE(vc_throws([&] { C.SetColumn_minus(k, v); }) == !in); is(C, m, n, [&](int i, int j) { return j == k ? w : c.o[i + m * j]; });
  });
}
HARNESS(rows) {
  shapes([](int m, int n) {
    Buf a(m * n), s(n), t(4 * n), u(n * n); Mat A(a.d, m, n), S(s.d, n, 1), T(t.d, 4, n), U(u.d, n, n);
    int k = vc_pin(vc_int(-1, 3), -1, 3), l = vc_pin(vc_int(-1, 4), -1, 4); bool in = k >= 0 && k < m, lin = l >= 0 && l < 4;
    ENSURE(vc_throws([&] { A.SetRow(k, S); }) == !in); is(A, m, n, [&](int i, int j) { return i == k ? s.o[j] : a.o[i + m * j]; });
    double x[3] = {7, 7, 7}; Mat X(x, 1, n), X4(x, 2, 2);
    ENSURE(vc_throws([&] { A.GetRow(k, X); }) == !in); if (in) is(X, 1, n, [&](int, int j) { return s.o[j]; });
    ENSURE(vc_throws([&] { A.GetRow(k, X4); }));
    ENSURE(vc_throws([&] { A.SetRowFromRow(k, T, l); }) == !(in && lin)); is(A, m, n, [&](int i, int j) { return i != k ? a.o[i + m * j] : lin ? t.o[l + 4 * j] : s.o[j]; });
    ENSURE(vc_throws([&] { A.SetRowFromDiag(k, U); }) == !in); is(A, m, n, [&](int i, int j) { return i == k ? u.o[j + n * j] : a.o[i + m * j]; });
    s.unchanged(); t.unchanged(); u.unchanged();
  });
}
HARNESS(subrow) {
  shapes([](int m, int n) {
    Buf a(m * n), s(3); Mat A(a.d, m, n), S(s.d, 3, 1); int k = vc_pin(vc_int(-1, 3), -1, 3), c = vc_pin(vc_int(0, 3), 0, 3), l = vc_pin(vc_int(0, 4), 0, 4); vc_assume(m < 3 || l < 3);
    bool ok = k >= 0 && k < m && c + l <= n && l <= 3;
    ENSURE(vc_throws([&] { A.SetSubRow(k, c, S, l); }) == !ok);
    is(A, m, n, [&](int i, int j) { return ok && i == k && j >= c && j < c + l ? s.o[j - c] : a.o[i + m * j]; }); s.unchanged();
  });
}
HARNESS(columns) {
  shapes([](int m, int n) {
    Buf a(m * n), s(m), t(4 * m), u(m * m), r(4 * m); Mat A(a.d, m, n), S(s.d, m, 1), T(t.d, m, 4), U(u.d, m, m), R(r.d, 4, m);
    int k = vc_pin(vc_int(-1, 3), -1, 3), l = vc_pin(vc_int(-1, 4), -1, 4); bool in = k >= 0 && k < n, lin = l >= 0 && l < 4;
    ENSURE(vc_throws([&] { A.SetColumn(k, S); }) == !in); is(A, m, n, [&](int i, int j) { return j == k ? s.o[i] : a.o[i + m * j]; });
    double x[3] = {7, 7, 7}; Mat X(x, m, 1), X4(x, 2, 2);
    ENSURE(vc_throws([&] { A.GetColumn(k, X); }) == !in); if (in) is(X, m, 1, [&](int i, int) { return s.o[i]; });
    ENSURE(vc_throws([&] { A.GetColumn(k, X4); }));
    ENSURE(vc_throws([&] { A.SetColumnFromColumn(k, T, l); }) == !(in && lin)); is(A, m, n, [&](int i, int j) { return j != k ? a.o[i + m * j] : lin ? t.o[i + m * l] : s.o[i]; });
    ENSURE(vc_throws([&] { A.SetColumnFromDiag(k, U); }) == !in); is(A, m, n, [&](int i, int j) { return j == k ? u.o[i + m * i] : a.o[i + m * j]; });
    ENSURE(vc_throws([&] { A.SetColumnFromRow(k, R, l); }) == !(in && lin)); is(A, m, n, [&](int i, int j) { return j != k ? a.o[i + m * j] : lin ? r.o[l + 4 * i] : u.o[i + m * i]; });
    s.unchanged(); t.unchanged(); u.unchanged(); r.unchanged();
  });
}
HARNESS(diagonal) {
  shapes([](int m, int n) {
    Buf a(m * n); Mat A(a.d, m, n); double x[3]; int l = vc_pin(vc_int(0, 3), 0, 3); Mat X(x, l, 1);
    bool ok = m == n && l >= m; ENSURE(vc_throws([&] { A.GetDiag(X); }) == !ok);
    if (ok) for (int i = 0; i < m; i++) ENSURE(x[i] == a.o[i + m * i]);
    double v = vc_real(), w = vc_real(); bool d = true;
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) d = d & (a.o[i + m * j] == (i == j ? v : w));
    if (m == n && m < 3) ENSURE(Mat::IsDiagonal(A, v, w, 0) == d);
    a.unchanged();
  });
}
HARNESS(copy) {
  shapes([](int m, int n) {
    Buf a(m * n), b(9); Mat A(a.d, m, n); int p = vc_pin(vc_int(1, 3), 1, 3), q = vc_pin(vc_int(1, 3), 1, 3); Mat B(b.d, p, q);
    ENSURE(vc_throws([&] { A.CopyTo(B); }) == !(p == m && q == n));
    for (int i = 0; i < 9; i++) ENSURE(b.d[i] == (p == m && q == n && i < m * n ? a.o[i] : b.o[i]));
    for (int i = 0; i < 9; i++) b.d[i] = b.o[i];
    ENSURE(vc_throws([&] { B.CopyFrom(A); }) == !(p == m && q == n));
    for (int i = 0; i < 9; i++) ENSURE(b.d[i] == (p == m && q == n && i < m * n ? a.o[i] : b.o[i]));
    for (int i = 0; i < 9; i++) b.d[i] = b.o[i];
    ENSURE(vc_throws([&] { B.CopyFrom0(A); }) == (p * q != m * n));
    for (int i = 0; i < 9; i++) ENSURE(b.d[i] == (p * q == m * n && i < m * n ? a.o[i] : b.o[i]));
    a.unchanged();
  });
}
// blocks: any position and size, also outside the matrices
template <bool T> static void setsub() {
  vc_bounded();
  const int R = 3, C = 2, P = 2, Q = 2;
  Buf a(R * C), s(P * Q); Mat A(a.d, R, C), S(s.d, P, Q);
  int r0 = vc_pin(vc_int(0, R), 0, R), c0 = vc_pin(vc_int(0, C), 0, C), rc = vc_pin(vc_int(0, 3), 0, 3), cc = vc_pin(vc_int(0, 3), 0, 3), sr = vc_pin(vc_int(0, 1), 0, 1), sc = vc_pin(vc_int(0, 2), 0, 2);
  bool ok = r0 + rc <= R && c0 + cc <= C && sr + (T ? cc : rc) <= P && sc + (T ? rc : cc) <= Q;
  bool t = vc_throws([&] { if (T) A.SetSub_t(r0, c0, S, sr, sc, rc, cc); else A.SetSub(r0, c0, S, sr, sc, rc, cc); });
  ENSURE(t == !ok);
  is(A, R, C, [&](int i, int j) { return !(ok && i >= r0 && i < r0 + rc && j >= c0 && j < c0 + cc) ? a.o[i + R * j] : T ? s.o[sr + j - c0 + P * (sc + i - r0)] : s.o[sr + i - r0 + P * (sc + j - c0)]; });
  s.unchanged();
}
HARNESS(setsub_t) { setsub<true>(); }
HARNESS(getsub) {
  vc_bounded();
  const int R = 2, C = 3, P = 3, Q = 2; // from S (R x C) into the storage A (P x Q)
  Buf a(P * Q), s(R * C); Mat A(a.d, P, Q), S(s.d, R, C);
  int r0 = vc_pin(vc_int(0, 2), 0, 2), c0 = vc_pin(vc_int(0, 3), 0, 3), rc = vc_pin(vc_int(0, 2), 0, 2), cc = vc_pin(vc_int(0, 3), 0, 3), sr = vc_pin(vc_int(0, 2), 0, 2), sc = vc_pin(vc_int(0, 2), 0, 2);
  bool ok = r0 + rc <= R && c0 + cc <= C && sr + rc <= P && sc + cc <= Q;
  ENSURE(vc_throws([&] { S.GetSub(r0, c0, rc, cc, A, sr, sc); }) == !ok);
  is(A, P, Q, [&](int i, int j) { return ok && i >= sr && i < sr + rc && j >= sc && j < sc + cc ? s.o[r0 + i - sr + R * (c0 + j - sc)] : a.o[i + P * j]; });
  s.unchanged();
}
HARNESS(subvector) {
  vc_bounded();
  Buf a(4), s(3); Mat A(a.d, 4, 1), S(s.d, 3, 1); int st = vc_pin(vc_int(0, 3), 0, 3), so = vc_pin(vc_int(0, 3), 0, 3), c = vc_pin(vc_int(0, 4), 0, 4);
  vc_assume(so + c <= 3); bool ok = st + c <= 4;
  ENSURE(vc_throws([&] { A.SetSubVector(st, S, so, c); }) == !ok);
  is(A, 4, 1, [&](int i, int) { return ok && i >= st && i < st + c ? s.o[so + i - st] : a.o[i]; });
  Buf b(4); Mat B(b.d, 4, 1); bool gok = st + c == 4;
  ENSURE(vc_throws([&] { S.GetSubVector(so, c, B, st); }) == !gok);
  is(B, 4, 1, [&](int i, int) { return gok && i >= st && i < st + c ? s.o[so + i - st] : b.o[i]; });
}
// rows or columns chosen by a list of indexes (or all but those)
static void getsub_list(bool row, bool excl) {
  vc_bounded();
  const int R = 3, C = 3; Buf s(R * C), a(16); Mat S(s.d, R, C); int nx = vc_pin(vc_int(0, 3), 0, 3); int ix[3]; for (int i = 0; i < nx; i++) ix[i] = vc_pin(vc_int(0, 2), 0, 2);
  int f0 = vc_pin(vc_int(0, 2), 0, 2), fc = vc_pin(vc_int(0, 2), 0, 2); vc_assume(f0 + fc <= 3);
  int list[3], nl = 0;
  if (excl) { bool distinct = true; for (int i = 0; i < nx; i++) for (int j = 0; j < i; j++) if (ix[i] == ix[j]) distinct = false; vc_assume(distinct); for (int k = 0; k < 3; k++) { bool in = false; for (int i = 0; i < nx; i++) if (ix[i] == k) in = true; if (!in) list[nl++] = k; } }
  else for (int i = 0; i < nx; i++) list[nl++] = ix[i];
  int or_ = vc_pin(vc_int(0, 1), 0, 1), oc = 1 - or_; // offsets in the storage
  int m = (row ? fc : nl) + or_, n = (row ? nl : fc) + oc; bool wrong = vc_pin(vc_int(0, 1), 0, 1); if (wrong) m++;
  vc_assume(m * n <= 16);
  Mat A(a.d, m, n); VecView<int> v(ix, nx);
  ENSURE(vc_throws([&] { S.GetSub(f0, fc, v.v(), row, A, or_, oc, excl); }) == wrong);
  if (!wrong) is(A, m, n, [&](int i, int j) { return i < or_ || j < oc ? a.o[i + m * j] : row ? s.o[f0 + i - or_ + R * list[j - oc]] : s.o[list[i - or_] + R * (f0 + j - oc)]; });
  s.unchanged();
}
HARNESS(getsub_rows) { getsub_list(true, false); }
HARNESS(getsub_cols) { getsub_list(false, false); }
HARNESS(getsub_not_cols) { getsub_list(true, true); }
HARNESS(getsub_not_rows) { getsub_list(false, true); }
HARNESS(getsub_both) {
  vc_bounded();
  const int R = 3, C = 2; Buf s(R * C), a(16); Mat S(s.d, R, C); int nr = vc_pin(vc_int(0, 3), 0, 3), nc = vc_pin(vc_int(0, 3), 0, 3), r[3], c[3];
  for (int i = 0; i < nr; i++) r[i] = vc_pin(vc_int(0, R - 1), 0, R - 1);
  for (int i = 0; i < nc; i++) c[i] = i % 2 ? 0 : 1;
  int m = nr + 1, n = nc; bool wrong = vc_pin(vc_int(0, 1), 0, 1); if (wrong) n++;
  Mat A(a.d, m, n); VecView<int> vr(r, nr), vc(c, nc);
  ENSURE(vc_throws([&] { S.GetSub(vr.v(), vc.v(), A, 1, 0); }) == wrong);
  if (!wrong) is(A, m, n, [&](int i, int j) { return i < 1 ? a.o[i + m * j] : s.o[r[i - 1] + R * c[j]]; });
}
// triangular matrices from the list of their elements
static void tri(int up, bool diag) {
  vc_bounded();
  int m = vc_pin(vc_int(1, 4), 1, 4); {
    int e = diag ? m * (m + 1) / 2 : m * (m - 1) / 2; Buf a(m * m), s(10); Mat A(a.d, m, m), S(s.d, e, 1), B(a.d, m, m + 1), W(s.d, e + 1, 1);
    bool byrow = up != 2;
    ENSURE(vc_throws([&] { Mat::MakeTriangular(A, W, up, diag, byrow); }) && vc_throws([&] { Mat::MakeTriangular(B, S, up, diag, byrow); }));
    ENSURE(vc_throws([&] { Mat::MakeTriangular(A, S, up, diag, !byrow); }));
    is(A, m, m, [&](int i, int j) { return a.o[i + m * j]; });
    Mat::MakeTriangular(A, S, up, diag, byrow);
    int k = 0; // upper by rows, lower by columns
    for (int p = 0; p < m; p++) for (int q = diag ? p : p + 1; q < m; q++, k++) {
      if (up != 2) ENSURE(a.d[p + m * q] == s.o[k]);
      if (up == 0 || up == 2) ENSURE(a.d[q + m * p] == s.o[k]);
    }
    ENSURE(k == e);
    for (int p = 0; p < m; p++) for (int q = 0; q < m; q++) if ((p == q && !diag) || (p > q && up == 1) || (p < q && up == 2)) ENSURE(a.d[p + m * q] == a.o[p + m * q]);
  }
}
HARNESS(tri_full) { tri(0, true); }
HARNESS(tri_up) { tri(1, true); }
HARNESS(tri_low) { tri(2, true); }
HARNESS(tri_full_nodiag) { tri(0, false); }
HARNESS(tri_up_nodiag) { tri(1, false); }
HARNESS(tri_low_nodiag) { tri(2, false); }
HARNESS(transpose) {
  shapes([](int m, int n) {
    Buf a(m * n), b(m * n); Mat A(a.d, m, n), B(b.d, n, m); A.Transpose(B); is(B, n, m, [&](int i, int j) { return a.o[j + m * i]; }); a.unchanged();
    A.Transpose(); is(A, n, m, [&](int i, int j) { return a.o[j + m * i]; });
    Mat W(b.d, n + 1, m); ENSURE(vc_throws([&] { A.Transpose(W); }));
  });
}
