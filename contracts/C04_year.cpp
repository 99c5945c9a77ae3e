#include "freq_common.h"
// position on the integer line of a year-based value, relative to year y0
static inline long long ord(const FrequencyYearBased &f, int y0) {
  return (long long)((f.mYear - y0) / f.mYearMulti) * f.mPartitionCount + f.mPosition;
}
#define YEARBASED                                                              \
  int y = vc_int(-100000, 100000), X = vc_int(1, 100000), p = vc_int(1, 100000), Z = vc_int(1, 1000); \
  vc_assume(p <= X);                                                           \
  FrequencyYearBased f(y, X, p, Z);
HARNESS(year_next) {
  YEARBASED
  int n = vc_int(-100000, 100000);
  f.Next(n);
  int p1 = f.mPosition;
  vc_cover("year_next");
  ENSURE(p1 >= 1 && p1 <= X);
  ENSURE((long long)(f.mYear - y) / Z * X + (p1 - p) == n);
  ENSURE((f.mYear - y) % Z == 0);
  ENSURE(f.mYearMulti == Z && f.mPartitionCount == X);
}
HARNESS(year_minus) {
  YEARBASED
  int k = vc_int(-1000, 1000), p2 = vc_int(1, 100000);
  vc_assume(p2 <= X);
  FrequencyYearBased g(y + k * Z, X, p2, Z);
  long long d = (long long)k * X + (p2 - p);
  ENSURE(g.CompareTo(f) == sgn(d));
  ENSURE(f.CompareTo(g) == -sgn(d));
  ENSURE(g.Minus(f) == d);
  ENSURE(f.Minus(g) == -d);
  ENSURE(g.IsNewerThan(f) == (d > 0) && g.IsOlderThan(f) == (d < 0) && g.IsEqualTo(f) == (d == 0));
  ENSURE(g.IsEqualOrNewerThan(f) == (d >= 0) && g.IsEqualOrOlderThan(f) == (d <= 0));
}
HARNESS(year_class) {
  int X = vc_int(1, 2000), p = vc_int(-5, 2000), Z = vc_int(1, 50), y = vc_int(-3000, 3000);
  bool bad = vc_throws([&] { FrequencyYearBased f(y, X, p, Z); });
  ENSURE(bad == (p < 1 || p > X));
  if (bad) return;
  FrequencyYearBased f(y, X, p, Z);
  ENSURE(f.mYear == y && f.mPosition == p);
  ENSURE((f.mClass == FrequencyClass::kYearly) == (X == 1 && Z == 1));
  ENSURE((f.mClass == FrequencyClass::kQuarterly) == (X == 4 && Z == 1));
  ENSURE((f.mClass == FrequencyClass::kMonthly) == (X == 12 && Z == 1));
  ENSURE((f.mClass == FrequencyClass::kMultiYear) == (X == 1 && Z != 1));
}
HARNESS(cross_section) {
  int p = vc_int(-1000000, 1000000), q = vc_int(-1000000, 1000000), n = vc_int(-1000000, 1000000);
  FrequencyCrossSection f(p), g(q);
  ENSURE(f.CompareTo(g) == sgn((long long)p - q));
  ENSURE(f.Minus(g) == p - q);
  g.Next(n);
  ENSURE(g.mPosition == q + n);
}
HARNESS(nat_class_mismatch) {
  int X = vc_int(1, 3), Z = vc_int(1, 2), X2 = vc_int(1, 3), Z2 = vc_int(1, 2);
  FrequencyYearBased f(2000, X, 1, Z), g(2001, X2, 1, Z2);
  bool same = X == X2 && Z == Z2;
  ENSURE(vc_throws([&] { f.Minus(g); }) == !same);
  ENSURE(vc_throws([&] { f.CompareTo(g); }) == !same);
}
