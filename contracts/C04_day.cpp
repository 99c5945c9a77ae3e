#include "freq_common.h"
HARNESS(day_next) {
  int d = vc_int(2400000, 2600000), X = vc_int(1, 100000), p = vc_int(1, 100000), n = vc_int(-100000, 100000);
  vc_assume(p <= X);
  FrequencyWeekBased w(mkdate(d), false, nullptr, true);
  FrequencyDayBased f(w, X, p);
  f.Next(n);
  ENSURE(f.mPosition >= 1 && f.mPosition <= X);
  ENSURE((long long)(daynum(f.mDay.mDay) - d) * X + (f.mPosition - p) == n);
  ENSURE(f.mPartitionCount == X);
}
HARNESS(day_minus) {
  int d = vc_int(2400000, 2600000), k = vc_int(-3000, 3000), X = vc_int(1, 100000), p = vc_int(1, 100000), p2 = vc_int(1, 100000);
  vc_assume(p <= X && p2 <= X);
  FrequencyWeekBased w(mkdate(d), false, nullptr, true), w2(mkdate(d + k), false, nullptr, true);
  FrequencyDayBased f(w, X, p), g(w2, X, p2);
  long long dd = (long long)k * X + (p2 - p);
  ENSURE(g.CompareTo(f) == sgn(dd));
  ENSURE(g.Minus(f) == dd);
  ENSURE(f.Minus(g) == -dd);
}
HARNESS(day_class) {
  int X = vc_int(1, 90000), p = vc_int(-5, 90000);
  FrequencyWeekBased w(mkdate(2500000), false, nullptr, true);
  bool bad = vc_throws([&] { FrequencyDayBased f(w, X, p); });
  ENSURE(bad == (p < 1 || p > X));
  if (bad) return;
  FrequencyDayBased f(w, X, p);
  ENSURE((f.mClass == FrequencyClass::kHourly) == (X == 24) && (f.mClass == FrequencyClass::kMinutely) == (X == 1440) && (f.mClass == FrequencyClass::kSecondly) == (X == 86400));
}
