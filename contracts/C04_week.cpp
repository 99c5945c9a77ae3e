#include "freq_common.h"
#define DAY(d) int d = vc_int(2400000, 2600000)
HARNESS(weekly) {
  DAY(d); DAY(e); int m = vc_int(1, 500), n = vc_int(-200, 200);
  FrequencyWeekBased f(mkdate(d), true, nullptr, true, m), h(mkdate(e), true, nullptr, true, m);
  ENSURE(f.mClass == (m == 1 ? FrequencyClass::kWeekly : FrequencyClass::kMultiWeekly));
  ENSURE(f.CompareTo(h) == sgn(d - e));
  f.Next(n);
  ENSURE(daynum(f.mDay) == d + 7 * n * m);
  FrequencyWeekBased g(mkdate(d), true, nullptr, true, m);
  ENSURE(f.Minus(g) == n);
  ENSURE(g.Minus(f) == -n);
  ENSURE(f.CompareTo(g) == sgn(n));
}
HARNESS(daily) {
  DAY(d); DAY(e); int m = vc_int(1, 500), n = vc_int(-200, 200);
  FrequencyWeekBased f(mkdate(d), false, nullptr, true, m), h(mkdate(e), false, nullptr, true, m);
  ENSURE(f.mClass == (m == 1 ? FrequencyClass::kDaily : FrequencyClass::kMultiDaily));
  ENSURE(f.CompareTo(h) == sgn(d - e));
  f.Next(n);
  ENSURE(daynum(f.mDay) == d + n * m);
  FrequencyWeekBased g(mkdate(d), false, nullptr, true, m);
  ENSURE(f.Minus(g) == n);
  ENSURE(g.Minus(f) == -n);
  ENSURE(f.CompareTo(g) == sgn(n));
}
// weekday s..e (cyclically); offset of weekday w from s
static inline int off(int w, int s) { return w >= s ? w - s : w - s + 7; }
HARNESS(range) {
  int s = pin7(vc_int(0, 6)), e = pin7(vc_int(0, 6)), w = pin7(vc_int(0, 6));
  DayOfWeekRange r((DayOfWeek)s, (DayOfWeek)e);
  int L = off(e, s) + 1; bool in = off(w, s) < L;
  ENSURE(r.GetLength() == L);
  ENSURE(r.IsInRange((DayOfWeek)w) == in);
  int st = 77;
  ENSURE(r.IsOutsideRange((DayOfWeek)w, true, st) == !in);
  ENSURE(in || st == off(s, w));
  ENSURE(r.IsOutsideRange((DayOfWeek)w, false, st) == !in);
  ENSURE(in || st == -off(w, e));
  ENSURE(DayOfWeekRange::Distance((DayOfWeek)s, (DayOfWeek)e, true) == off(e, s));
  ENSURE(DayOfWeekRange::Distance((DayOfWeek)s, (DayOfWeek)e, false) == off(s, e));
  ENSURE((int)DayOfWeekRange::NextDayOfWeek((DayOfWeek)w) == (w + 1) % 7);
  ENSURE((int)DayOfWeekRange::PreviousDayOfWeek((DayOfWeek)w) == (w + 6) % 7);
}
HARNESS(nat_boost_weekday) {
  DAY(d);
  ENSURE((int)mkdate(d).day_of_week() == (d + 1) % 7);
}
