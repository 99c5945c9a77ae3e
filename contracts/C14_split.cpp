#include "vec.h"
#include "/repo/src/array.cpp"
#include "/repo/src/ldt_base.cpp"
#include "/repo/src/matrix/matrix.cpp"
#include "/repo/src/ldt_statistics/data_split.cpp"
using namespace ldt;
#ifndef VC_NATIVE
// contract of std::shuffle: some permutation of the elements
extern "C" NOINLINE __attribute__((used)) void replace___ZSt7shuffleIPiRSt23mersenne_twister_engineImLm32ELm624ELm397ELm31ELm2567483615ELm11ELm4294967295ELm7ELm2636928640ELm15ELm4022730752ELm18ELm1812433253EEEvT_S4_OT0_(int *a, int *b, std::mt19937 *) {
  int n = b - a;
  for (int i = 1; i < n; i++) { int k = vc_pin(vc_int(0, i), 0, i); int t = a[i]; a[i] = a[k]; a[k] = t; }
}
#endif
struct Eng { std::mt19937 *e; Eng() {
#ifdef VC_NATIVE
  e = new std::mt19937(vc_int(0, 1000));
#else
  e = nullptr;
#endif
} };
// column 0 of data identifies the row
template <class M> static int row_of(const M &data, const Matrix<double> &s, int i) {
  for (int k = 0; k < data.RowsCount; k++) {
    bool same = true;
    for (int j = 0; j < data.ColsCount; j++) if (!(s.Data[i + j * s.RowsCount] == data.Data[k + j * data.RowsCount])) same = false;
    if (same) return k;
  }
  return -1;
}
// every observation is in exactly one of the two samples, complete
static void partition(const Matrix<double> &data, const Matrix<double> &a, const Matrix<double> &b) {
  int n = data.RowsCount; int seen[16];
  ENSURE(a.RowsCount + b.RowsCount == n && a.ColsCount == data.ColsCount && b.ColsCount == data.ColsCount);
  for (int i = 0; i < n; i++) seen[i] = 0;
  for (int i = 0; i < n; i++) {
    int r = i < a.RowsCount ? row_of(data, a, i) : row_of(data, b, i - a.RowsCount);
    ENSURE(r >= 0);
    seen[r]++;
  }
  for (int i = 0; i < n; i++) ENSURE(seen[i] == 1);
}
// nothing is written outside the announced storage
template <class S> static void guard(const S &s, double *st, int *w) { for (int i = s.StorageSize; i < s.StorageSize + 2; i++) st[i] = -77; for (int i = s.WorkSizeI; i < s.WorkSizeI + 2; i++) w[i] = -77; }
template <class S> static void guarded(const S &s, const double *st, const int *w) { for (int i = s.StorageSize; i < s.StorageSize + 2; i++) ENSURE(st[i] == -77); for (int i = s.WorkSizeI; i < s.WorkSizeI + 2; i++) ENSURE(w[i] == -77); }
static int share(double ratio, int n) { int e = (int)std::floor(ratio * n + 0.5); if (e >= n) e = n - 1; return e == 0 ? 1 : e; }
static void split(int n, int cols) {
  double d[64], st[64], e[64]; int w[16];
  for (int i = 0; i < n; i++) d[i] = i;
  for (int i = n; i < n * cols; i++) d[i] = 100 + i;
  for (int i = 0; i < n * cols; i++) e[i] = d[i];
  Matrix<double> data(d, n, cols);
  DataSplit s(n, cols);
  ENSURE(s.StorageSize <= n * cols && s.WorkSizeI <= n); guard(s, st, w);
  double ratio = vc_real(); int fix = vc_int(0, n + 1); vc_assume(ratio >= 0 && ratio <= 1);
  fix = vc_pin(fix, 0, n + 1);
  bool t = vc_throws([&] { s.Calculate(data, st, ratio, fix); });
  int N0 = fix > 0 ? fix : (int)std::floor(n * ratio + 0.5);
  ENSURE(t == (N0 <= 0 || N0 >= n));
  if (t) return;
  ENSURE(s.Sample0.RowsCount == N0);
  vc_pin(N0, 0, n);
  Eng g;
  s.Shuffle(data, w, *g.e);
  partition(data, s.Sample0, s.Sample1);
  s.Shuffle(data, w, *g.e);
  partition(data, s.Sample0, s.Sample1); guarded(s, st, w);
  for (int i = 0; i < n * cols; i++) ENSURE(d[i] == e[i]);
}
HARNESS(split2) { vc_bounded(); split(2, 2); }
HARNESS(split3) { vc_bounded(); split(3, 2); }
// ---- stratified
static void discrete(int n, int K, int cols) {
  double d[64], st[64]; int w[16], cnt[4], c0[4], cls[16];
  for (int k = 0; k < K; k++) cnt[k] = 0;
  for (int i = 0; i < n; i++) { cls[i] = vc_pin(vc_int(0, K - 1), 0, K - 1); d[i] = cls[i]; cnt[cls[i]]++; d[n + i] = i; }
  for (int i = 2 * n; i < n * cols; i++) d[i] = 100 + i;
  Matrix<double> data(d, n, cols);
  DataSplitDiscrete s(n, cols, K);
  ENSURE(s.StorageSize <= n * cols && s.WorkSizeI <= n); guard(s, st, w);
  double ratio = vc_real(); vc_assume(ratio >= 0 && ratio <= 1);
  int fix = vc_pin(vc_int(0, n), 0, n);
  bool empty = false; for (int k = 0; k < K; k++) if (cnt[k] == 0) empty = true;
  int N0 = fix > 0 ? fix : (int)std::floor(n * ratio + 0.5);
  bool t = vc_throws([&] { s.Calculate(data, st, ratio, fix); });
  ENSURE(t == (empty || N0 <= 0 || N0 >= n));
  if (t) return;
  Eng g;
  t = vc_throws([&] { s.Shuffle(data, w, *g.e); }); guarded(s, st, w);
  { int sum = 0, big = 0; for (int k = 0; k < K; k++) { sum += share(ratio, cnt[k]); if (cnt[k] > cnt[big]) big = k; } int last = N0 - (sum - share(ratio, cnt[big])); ENSURE(t == (last <= 0 || last > cnt[big])); } // what is left for the largest class is possible
  if (t) return;
  ENSURE(s.Sample0.RowsCount == N0);
  partition(data, s.Sample0, s.Sample1);
  // every class is represented in the training sample; all but one class in proportion
  int bad = 0;
  for (int k = 0; k < K; k++) c0[k] = 0;
  for (int i = 0; i < N0; i++) c0[(int)s.Sample0.Data[i]]++;
  for (int k = 0; k < K; k++) {
    ENSURE(c0[k] > 0);
    int e = share(ratio, cnt[k]);
    if (c0[k] != e) { bad++; for (int l = 0; l < K; l++) ENSURE(cnt[l] <= cnt[k]); }
  }
  ENSURE(bad <= 1);
}
HARNESS(discrete3) { vc_bounded(); discrete(3, 2, 2); }
// a split object used for other data with the same storage
static void again(int n, int cols, int n2, int cols2) {
  double d[64], e[64], st[64]; int w[16]; for (int i = 0; i < n * cols; i++) d[i] = i; for (int i = 0; i < n2 * cols2; i++) e[i] = 1000 + i;
  Matrix<double> A(d, n, cols), B(e, n2, cols2); DataSplit s(n, cols); int f = vc_pin(vc_int(1, n - 1), 1, n - 1), g = vc_pin(vc_int(1, n2 - 1), 1, n2 - 1); Eng x;
  s.Calculate(A, st, 0, f); s.Shuffle(A, w, *x.e); s.Calculate(B, st, 0, g); ENSURE(s.Sample0.RowsCount == g); s.Shuffle(B, w, *x.e); partition(B, s.Sample0, s.Sample1);
}
HARNESS(again_rows) { vc_bounded(); again(3, 1, 2, 1); }
HARNESS(again_columns) { vc_bounded(); again(2, 2, 2, 1); }
static void again_discrete(int n, int cols, int n2, int cols2, int K) {
  double d[64], e[64], st[64]; int w[16], c[4]; for (int k = 0; k < K; k++) c[k] = 0;
  for (int i = 0; i < n; i++) d[i] = i % K; for (int i = n; i < n * cols; i++) d[i] = i; for (int i = 0; i < n2; i++) { e[i] = i < K ? i : vc_pin(vc_int(0, K - 1), 0, K - 1); c[(int)e[i]]++; } for (int i = n2; i < n2 * cols2; i++) e[i] = 1000 + i;
  Matrix<double> A(d, n, cols), B(e, n2, cols2); DataSplitDiscrete s(n, cols, K); Eng x; if (vc_throws([&] { s.Calculate(A, st, 0.5, 0); s.Shuffle(A, w, *x.e); s.Calculate(B, st, 0.5, 0); s.Shuffle(B, w, *x.e); })) return;
  partition(B, s.Sample0, s.Sample1); for (int k = 0; k < K; k++) { ENSURE(s.Counts.at(k) == c[k] && (int)s.Rows.at(k)->size() == c[k]); }
}
HARNESS(again_discrete) { vc_bounded(); again_discrete(3, 2, 3, 2, 2); }
#ifdef VC_NATIVE
HARNESS(nat_again) { int n = vc_int(2, 12), c = vc_int(1, 4); again(n, c, vc_int(2, n), vc_int(1, c)); }
HARNESS(nat_again_discrete) { int n = vc_int(4, 12), c = vc_int(2, 4), K = vc_int(2, 3); again_discrete(n, c, vc_int(K + 1, n), vc_int(2, c), K); }
HARNESS(nat_random) { // every observation can be drawn into either sample
  bool strat = vc_bool(); int n = vc_int(strat ? 4 : 2, 6); double d[12], st[12]; int w[6], a[6], b[6]; for (int i = 0; i < n; i++) { d[i] = strat ? i % 2 : i; d[n + i] = i; a[i] = b[i] = 0; } Matrix<double> A(d, n, 2); DataSplit s(n, 2); DataSplitDiscrete c(n, 2, 2); Eng g; if (strat) c.Calculate(A, st, 0.5, 0); else s.Calculate(A, st, 0.5, 0);
  auto &u = strat ? c.Sample0 : s.Sample0, &v = strat ? c.Sample1 : s.Sample1; for (int t = 0; t < 300; t++) { if (strat) c.Shuffle(A, w, *g.e); else s.Shuffle(A, w, *g.e); for (int i = 0; i < u.RowsCount; i++) a[(int)u.Data[u.RowsCount + i]]++; for (int i = 0; i < v.RowsCount; i++) b[(int)v.Data[v.RowsCount + i]]++; } for (int i = 0; i < n; i++) ENSURE(a[i] > 0 && b[i] > 0);
}
HARNESS(nat_split) { split(vc_size(2, 12), vc_size(1, 4)); }
HARNESS(nat_discrete) { discrete(vc_size(2, 12), vc_int(2, 4), vc_size(2, 4)); }
#endif
