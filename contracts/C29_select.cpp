#include "mat.h"
// sorting and selecting elements, rows and columns
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
typedef std::vector<int> IV;
// s is the sorted arrangement of o[0..n)
static void sorted(const double *s, const double *o, int n, bool asc) {
  for (int i = 0; i + 1 < n; i++) ENSURE(asc ? s[i] <= s[i + 1] : s[i] >= s[i + 1]);
  for (int k = 0; k < n; k++) { int a = 0, b = 0; for (int i = 0; i < n; i++) { a += o[i] == o[k] ? 1 : 0; b += s[i] == o[k] ? 1 : 0; } ENSURE(a == b); }
}
template <int M, int N> static void sort() {
  vc_bounded(); bool asc = dim(0, 1); double d[M * N], o[M * N], s[M * N]; for (int i = 0; i < M * N; i++) { d[i] = o[i] = vc_real(); s[i] = 0; }
  Mat A(d, M, N), S(s, M, N); A.Sort(S, asc);
  for (int j = 0; j < N; j++) sorted(s + M * j, o + M * j, M, asc);
  for (int i = 0; i < M * N; i++) ENSURE(d[i] == o[i]);
}
HARNESS(sort_3) { sort<3, 1>(); }
HARNESS(sort_22) { sort<2, 2>(); }
HARNESS(sort_4) { sort<4, 1>(); }
HARNESS(sort_32) { sort<3, 2>(); }
HARNESS(sort_13) { sort<1, 3>(); }
HARNESS(sort_size) { vc_bounded(); int m = dim(1, 3), n = dim(1, 3), p = dim(1, 3), q = dim(1, 3); Buf a(m * n), s(p * q); Mat A(a.d, m, n), S(s.d, p, q); if (m == p && n == q) return; ENSURE(vc_throws([&] { A.Sort(S, true); })); s.unchanged(); a.unchanged(); }
static void indices(const double *o, const int *x, int n, bool asc) {
  for (int i = 0; i < n; i++) { ENSURE(x[i] >= 0 && x[i] < n); for (int j = 0; j < i; j++) ENSURE(x[i] != x[j]); }
  for (int i = 0; i + 1 < n; i++) { double a = o[x[i]], b = o[x[i + 1]]; ENSURE((asc ? a < b : a > b) || (a == b && x[i] < x[i + 1])); } // ties keep their order
}
template <int N> static void order(bool asc) {
  double d[N]; for (int i = 0; i < N; i++) d[i] = vc_real();
  IV x, y, z; Mat A(d, N, 1); A.SortIndicesVector(x, asc); ENSURE((int)x.size() == N); indices(d, x.data(), N, asc);
  SortIndexes<double>(d, N, y, asc); ENSURE((int)y.size() == N); indices(d, y.data(), N, asc);
}
HARNESS(order_1) { vc_bounded(); order<1>(dim(0, 1)); }
HARNESS(order_2) { vc_bounded(); order<2>(dim(0, 1)); }
HARNESS(order_3) { vc_bounded(); order<3>(dim(0, 1)); }
HARNESS(order_4) { vc_bounded(); order<4>(dim(0, 1)); }
HARNESS(order_3v) { vc_bounded(); bool asc = dim(0, 1); double d[3]; for (int i = 0; i < 3; i++) d[i] = vc_real(); std::vector<double> v(d, d + 3); IV y; SortIndexes<double>(v, y, asc); ENSURE(y.size() == 3); indices(d, y.data(), 3, asc); }
HARNESS(sort_by) {
  vc_bounded(); int m = dim(1, 3), n = dim(1, 2), k = dim(1, 3); Buf a(m * n), s(m * n); Mat A(a.d, m, n), S(s.d, m, n);
  IV x; int mx = 0; for (int i = 0; i < k; i++) { int e = dim(0, 3); x.push_back(e); if (e > mx) mx = e; }
  bool bad = k != m || mx >= m;
  ENSURE(vc_throws([&] { A.SortRowsBy(S, x); }) == bad);
  if (bad) s.unchanged(); else is(S, m, n, [&](int i, int j) { return a.o[x[i] + m * j]; });
  a.unchanged();
}
HARNESS(sort_by_columns) {
  vc_bounded(); int m = dim(1, 2), n = dim(1, 3), k = dim(1, 3); Buf a(m * n), s(m * n); Mat A(a.d, m, n), S(s.d, m, n);
  IV x; int mx = 0; for (int i = 0; i < k; i++) { int e = dim(0, 3); x.push_back(e); if (e > mx) mx = e; }
  bool bad = k != n || mx >= n;
  ENSURE(vc_throws([&] { A.SortColumnsBy(S, x); }) == bad);
  if (bad) s.unchanged(); else is(S, m, n, [&](int i, int j) { return a.o[i + m * x[j]]; });
  a.unchanged();
}
HARNESS(sort_by_vector) {
  vc_bounded(); int m = dim(1, 2), n = dim(1, 2), k = dim(1, 4); Buf a(m * n), s(m * n); Mat A(a.d, m, n), S(s.d, m, n);
  IV x; int mx = 0, e0 = dim(0, 4), st = dim(0, 2); for (int i = 0; i < k; i++) { int e = i == 0 ? e0 : (e0 + st * i) % 4; x.push_back(e); if (e > mx) mx = e; }
  bool bad = k != m * n || mx >= m * n;
  ENSURE(vc_throws([&] { A.SortByVector(S, x); }) == bad);
  if (bad) s.unchanged(); else for (int i = 0; i < m * n; i++) ENSURE(s.d[i] == a.o[x[i]]);
  a.unchanged();
}
HARNESS(sort_by_sizes) {
  vc_bounded(); int m = dim(1, 2), n = dim(1, 2), p = dim(1, 3), q = dim(1, 3); Buf a(m * n), s(p * q); Mat A(a.d, m, n), S(s.d, p, q); IV x; for (int i = 0; i < m; i++) x.push_back(i); IV y; for (int i = 0; i < n; i++) y.push_back(i); IV z; for (int i = 0; i < m * n; i++) z.push_back(i);
  if (p != m || q != n) { ENSURE(vc_throws([&] { A.SortRowsBy(S, x); })); ENSURE(vc_throws([&] { A.SortColumnsBy(S, y); })); }
  if (p * q != m * n) ENSURE(vc_throws([&] { A.SortByVector(S, z); }));
}
// ---- removing elements and columns
static double pick(int k) { return k == 0 ? vc_real() : k == 1 ? NAN : INFINITY; }
HARNESS(remove_nan_vector) {
  vc_bounded(); int n = dim(0, 4); bool row = dim(0, 1), inf = dim(0, 1); double d[4], o[4]; int k[4], c = 0, e[4] = {0, 0, 0, 0};
  for (int i = 0; i < n; i++) { k[i] = dim(0, 2); d[i] = o[i] = pick(k[i]); if (!(k[i] == 1 || (inf && k[i] == 2))) e[c++] = i; }
  Mat A(d, row ? 1 : n, row ? n : 1); A.RemoveNanVector_in(inf);
  ENSURE(A.length() == c && (row && n > 1 ? A.RowsCount == 1 : A.ColsCount == 1));
  for (int i = 0; i < c; i++) ENSURE(d[i] == o[e[i]]);
}
HARNESS(remove_nan_copy) {
  vc_bounded(); int n = dim(0, 4); double d[4], o[4], s[4]; int k[4], c = 0, e[4] = {0, 0, 0, 0};
  for (int i = 0; i < n; i++) { k[i] = dim(0, 2); d[i] = o[i] = pick(k[i]); s[i] = 7; if (k[i] != 1) e[c++] = i; }
  Mat A(d, n, 1), Z; ENSURE(Mat::RemoveNanVector(A, Z) == c); Mat S(s, c, 1); ENSURE(Mat::RemoveNanVector(A, S) == c);
  for (int i = 0; i < c; i++) ENSURE(s[i] == o[e[i]]);
  for (int i = 0; i < n; i++) ENSURE(k[i] == 1 ? std::isnan(d[i]) : d[i] == o[i]);
}
HARNESS(remove_columns) {
  vc_bounded(); int m = dim(1, 2), n = dim(1, 3); Buf a(m * n); Mat A(a.d, m, n); int e[3] = {0, 0, 0}, c = 0; bool rm[3]; IV x;
  for (int j = n - 1; j >= 0; j--) { rm[j] = dim(0, 1); if (rm[j]) x.push_back(j); } for (int j = 0; j < n; j++) if (!rm[j]) e[c++] = j;
  A.RemoveColumnsIn(x); is(A, m, c, [&](int i, int j) { return a.o[i + m * e[j]]; });
}
HARNESS(remove_columns_list) { // any list of columns: repeated, in any order
  vc_bounded(); int m = 1, n = dim(1, 3), k = dim(0, 3); Buf a(m * n); Mat A(a.d, m, n); int e[3] = {0, 0, 0}, c = 0; IV x; bool rm[3] = {false, false, false};
  for (int i = 0; i < k; i++) { int v = dim(0, n - 1); x.push_back(v); rm[v] = true; } for (int j = 0; j < n; j++) if (!rm[j]) e[c++] = j;
  A.RemoveColumnsIn(x); is(A, m, c, [&](int i, int j) { return a.o[i + m * e[j]]; });
}
HARNESS(remove_columns_nan) {
  vc_bounded(); int m = dim(1, 2), n = dim(1, 3); bool inf = dim(0, 1); double d[6], o[6]; int e[3] = {0, 0, 0}, c = 0;
  for (int j = 0; j < n; j++) { bool keep = true; for (int i = 0; i < m; i++) { int k = m == 2 && j == 2 ? dim(0, 1) : dim(0, 2); d[i + m * j] = o[i + m * j] = pick(k); if (k == 1 || (inf && k == 2)) keep = false; } if (keep) e[c++] = j; }
  Mat A(d, m, n); A.RemoveColumnsAnyNan_in(inf); ENSURE(A.RowsCount == m && A.ColsCount == c);
  for (int j = 0; j < c; j++) for (int i = 0; i < m; i++) ENSURE(d[i + m * j] == o[i + m * e[j]]);
}
// ---- questions about elements (any number of elements)
struct Q { const double *d; double v; int g; };
static bool match(double x, double v) { return std::isnan(v) ? std::isnan(x) : x == v; }
CAND bool cand_all__unseen(const Q *c, int i) { return c->g >= i; }
CAND bool cand_all__seen(const Q *c, int i) { double x = c->d[c->g]; return c->g >= i || match(x, c->v); }
template <bool MISS> static void any() { int n = vc_size(1, 100000); double *d = vc_array_nan(n); double v = MISS ? NAN : vc_real(); int g = vc_int(0, 100000); vc_assume(g < n && match(d[g], v)); Q q{d, v, g}; vc_ctx(&q); Mat A(d, n, 1); ENSURE(A.Any(v)); }
template <bool MISS> static void none() { int n = vc_size(1, 100000); double *d = vc_array_nan(n); double v = MISS ? NAN : vc_real(); int g = vc_int(0, 100000); vc_assume(g < n); Q q{d, v, g}; vc_ctx(&q); Mat A(d, n, 1); bool r = A.All(v); if (r) ENSURE(match(d[g], v)); }
HARNESS(any_value) { any<false>(); }
HARNESS(any_missing) { any<true>(); }
HARNESS(all_value) { none<false>(); }
HARNESS(all_missing) { none<true>(); }
HARNESS(any_all) {
  vc_bounded(); int m = dim(1, 2), n = dim(0, 2); Buf a(m * n, 1); Mat A(a.d, m, n); double v = vc_real_nan(); bool any = false, all = true; IV x, want;
  for (int i = 0; i < m * n; i++) { bool s = std::isnan(v) ? std::isnan(a.o[i]) : a.o[i] == v; if (s) { any = true; want.push_back(i); } else all = false; }
  ENSURE(A.Any(v) == any); ENSURE(A.All(v) == all); A.IndicesOfVector(v, x);
  ENSURE(x.size() == want.size()); for (int i = 0; i < (int)x.size(); i++) ENSURE(x[i] == want[i]);
  a.unchanged();
}
HARNESS(equals) {
  vc_bounded(); int m = dim(1, 2), n = dim(1, 2), p = dim(1, 2), q = dim(1, 2); bool th = dim(0, 1), nn = dim(0, 1); Buf a(m * n, 1), b(p * q, 1); double e = vc_posreal();
  Mat A(a.d, m, n), B(b.d, p, q); bool r = false, t = vc_throws([&] { r = A.Equals(B, e, th, nn); });
  if (m != p || n != q) { ENSURE(t == th && !r); return; }
  bool w = true; for (int i = 0; i < m * n; i++) { bool x = std::isnan(a.o[i]), y = std::isnan(b.o[i]); if (x || y) { if (!(x && y && nn)) w = false; } else { double f = a.o[i] - b.o[i]; if (f > e || -f > e) w = false; } }
  ENSURE(!t && r == w); ENSURE(A.Equals(A, e, th, nn));
}
HARNESS(equals_value) {
  vc_bounded(); int m = dim(1, 2), n = dim(1, 2), c = dim(0, n - 1); bool ig = dim(0, 1), nn = dim(0, 1); Buf a(m * n, 1); double e = vc_posreal(), v = vc_real_nan(); Mat A(a.d, m, n);
  auto want = [&](int k0, int k1) { bool w = true, vn = std::isnan(v); if (vn && ig) return true; for (int i = k0; i < k1; i++) { bool x = std::isnan(a.o[i]); if (x && ig) continue; if (x || vn) { if (!(x && vn && nn)) w = false; } else { double f = a.o[i] - v; if (f > e || -f > e) w = false; } } return w; };
  ENSURE(A.EqualsValue(v, e, nn, ig) == want(0, m * n)); ENSURE(A.EqualsValueColumn(c, v, e, nn, ig) == want(c * m, c * m + m)); a.unchanged();
}
#ifdef VC_NATIVE
// longer vectors with ties
HARNESS(nat_order) {
  int n = vc_int(1, 60), v = vc_int(1, 6); bool asc = vc_int(0, 1); std::vector<double> d(n), o; for (int i = 0; i < n; i++) d[i] = vc_int(0, v); o = d;
  IV x, y, z; Mat A(d.data(), n, 1); A.SortIndicesVector(x, asc); ENSURE((int)x.size() == n); indices(d.data(), x.data(), n, asc);
  SortIndexes<double>(d.data(), n, y, asc); ENSURE((int)y.size() == n); indices(d.data(), y.data(), n, asc);
  SortIndexes<double>(d, z, asc); ENSURE((int)z.size() == n); indices(d.data(), z.data(), n, asc); ENSURE(d == o);
}
HARNESS(nat_sort) {
  int m = vc_int(1, 40), n = vc_int(1, 4), v = vc_int(1, 30); bool asc = vc_int(0, 1); std::vector<double> d(m * n), s(m * n); for (auto &e : d) e = vc_int(-v, v); auto o = d;
  Mat A(d.data(), m, n), S(s.data(), m, n); A.Sort(S, asc); for (int j = 0; j < n; j++) sorted(&s[m * j], &o[m * j], m, asc); ENSURE(d == o);
}
#endif
