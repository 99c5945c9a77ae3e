#include "freq_common.h"
// intraday dates over any day frequency: the day frequency is represented by
// its contract (proved in C04_week.cpp and C04_inweek.cpp): a date has an
// ordinal, Next(n) adds n to it, Minus is the difference, CompareTo its sign.
// The ordinal lives in mForwardSteps; the calendar day itself is arbitrary.
#ifndef VC_NATIVE
extern "C" __attribute__((used)) void replace___ZN3ldt18FrequencyWeekBased4NextEi(FrequencyWeekBased *f, int n) { f->mForwardSteps += n; }
extern "C" __attribute__((used)) int replace___ZN3ldt18FrequencyWeekBased5MinusERKNS_9FrequencyE(FrequencyWeekBased *f, const Frequency &o) { return f->mForwardSteps - static_cast<const FrequencyWeekBased &>(o).mForwardSteps; }
extern "C" __attribute__((used)) int replace___ZN3ldt18FrequencyWeekBased9CompareToERKNS_9FrequencyE(FrequencyWeekBased *f, const Frequency &o) { return sgn((long long)f->mForwardSteps - static_cast<const FrequencyWeekBased &>(o).mForwardSteps); }
#endif
static int ordinal(const FrequencyWeekBased &w) { return vc_symbolic() ? w.mForwardSteps : 0; }
// a date of the range (a, len) that is n valid days after the first one
static void mk(FrequencyWeekBased &w, int a, int len, int n) {
  if (vc_symbolic()) { w.mForwardSteps = n; return; }
  int d = 2454101 + 7 + a; // weekday a (day 0 is a Monday)
  while (((d + 1) % 7) != a) d++;
  int s = n > 0 ? 1 : -1;
  for (int i = 0; i < std::abs(n);) { d += s; if ((((d + 1) % 7) - a + 7) % 7 < len) i++; }
  w.mDay = mkdate(d);
}
HARNESS(dayweek_minus) {
  int a = pin7(vc_int(0, 6)), len = vc_int(2, 6), X = vc_int(1, 1000), p = vc_int(1, 1000), p2 = vc_int(1, 1000), k = vc_int(-1000, 1000);
  int d = vc_int(2400000, 2600000), d2 = vc_int(2400000, 2600000);
  vc_assume(p <= X && p2 <= X);
  DayOfWeekRange r(DayOfWeek(a), DayOfWeek((a + len - 1) % 7));
  FrequencyWeekBased w(mkdate(2454108), false, vc_symbolic() ? nullptr : &r, true), w2(w);
  if (vc_symbolic()) { w.mDay = mkdate(d); w2.mDay = mkdate(d2); }
  mk(w, a, len, 0); mk(w2, a, len, k);
  FrequencyDayBased f(w, X, p), g(w2, X, p2);
  long long dd = (long long)k * X + (p2 - p);
  ENSURE(g.CompareTo(f) == sgn(dd));
  ENSURE(g.Minus(f) == dd);
  ENSURE(f.Minus(g) == -dd);
}
HARNESS(dayweek_next) {
  int a = pin7(vc_int(0, 6)), len = vc_int(2, 6), X = vc_int(1, 1000), p = vc_int(1, 1000), n = vc_int(-3000, 3000), d = vc_int(2400000, 2600000);
  vc_assume(p <= X);
  DayOfWeekRange r(DayOfWeek(a), DayOfWeek((a + len - 1) % 7));
  FrequencyWeekBased w(mkdate(2454108), false, vc_symbolic() ? nullptr : &r, true);
  if (vc_symbolic()) w.mDay = mkdate(d);
  mk(w, a, len, 0);
  FrequencyDayBased f(w, X, p), g(w, X, p);
  f.Next(n);
  ENSURE(f.mPosition >= 1 && f.mPosition <= X);
  if (vc_symbolic()) ENSURE((long long)ordinal(f.mDay) * X + (f.mPosition - p) == n);
  else { 
    ENSURE(f.Minus(g) == n);
    ENSURE(((int)f.mDay.mDay.day_of_week() - a + 7) % 7 < len);
  }
}
