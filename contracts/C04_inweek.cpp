#include "freq_common.h"
static inline int off(int w, int s) { return w >= s ? w - s : w - s + 7; }
#ifndef VC_NATIVE
// contract of DayOfWeekRange::IsOutsideRange, proved on its body in C04_week.cpp (contract "range")
extern "C" __attribute__((used)) bool replace___ZNK3ldt14DayOfWeekRange14IsOutsideRangeENS_9DayOfWeekEbRi(const DayOfWeekRange *r, DayOfWeek v, bool forward, Ti &step) {
  int w = (int)v, s = (int)r->mStart, e = (int)r->mEnd;
  vc_ensure(w >= 0 && w <= 6 && s >= 0 && s <= 6 && e >= 0 && e <= 6, "precondition of IsOutsideRange");
  int L = off(e, s) + 1;
  step = 0;
  if (off(w, s) < L) { step = 0; return false; }
  step = forward ? off(s, w) : -off(w, e);
  return true;
}
#endif
struct Ctx { int s, L, i0; bool fwd; };
// index of day d among the days that belong to the range (day number 6 is a Sunday)
static inline int idx(int d, int s, int L) { int k = d + 1 - s; return k / 7 * L + k % 7; }
static inline bool inr(int d, int s, int L) { return (d + 1 - s) % 7 < L; }
CAND bool cand_all__step(const Ctx *c, int d, int i) {
  if (d < 2400000 - 7 || d > 2700000) return false;
  return inr(d, c->s, c->L) && idx(d, c->s, c->L) == (c->fwd ? c->i0 + i : c->i0 - i);
}
template <int S> static void next_harness() {
  int e = pin7(vc_int(0, 6)), d = vc_int(2500000, 2600000), n = vc_int(-5000, 5000);
  const int s = S;
  DayOfWeekRange r((DayOfWeek)s, (DayOfWeek)e); int L = off(e, s) + 1;
  vc_assume(inr(d, s, L));
  FrequencyWeekBased f(mkdate(d), false, &r, true);
  ENSURE(daynum(f.mDay) == d);
  Ctx c{s, L, idx(d, s, L), n > 0};
  vc_ctx(&c);
  f.Next(n);
  int d1 = daynum(f.mDay);
  ENSURE(inr(d1, s, L));
  ENSURE(idx(d1, s, L) - idx(d, s, L) == n);
}
HARNESS(inweek_next0) { next_harness<0>(); }
HARNESS(inweek_next1) { next_harness<1>(); }
HARNESS(inweek_next2) { next_harness<2>(); }
HARNESS(inweek_next3) { next_harness<3>(); }
HARNESS(inweek_next4) { next_harness<4>(); }
HARNESS(inweek_next5) { next_harness<5>(); }
HARNESS(inweek_next6) { next_harness<6>(); }
HARNESS(inweek_minus) {
  int s = pin7(vc_int(0, 6)), e = pin7(vc_int(0, 6)), d = vc_int(2500000, 2600000), d2 = vc_int(2500000, 2600000);
  DayOfWeekRange r((DayOfWeek)s, (DayOfWeek)e); int L = off(e, s) + 1;
  vc_assume(inr(d, s, L) && inr(d2, s, L));
  FrequencyWeekBased f, g;
  f.mClass = g.mClass = FrequencyClass::kDailyInWeek; f.mRange = g.mRange = r; f.mMulti = g.mMulti = 1;
  f.mDay = mkdate(d); g.mDay = mkdate(d2);
  ENSURE(f.Minus(g) == idx(d, s, L) - idx(d2, s, L));
}
// construction moves a day outside the range to the nearest day inside it
HARNESS(inweek_ctor) {
  int s = pin7(vc_int(0, 6)), e = pin7(vc_int(0, 6)), d = vc_int(2500000, 2600000); bool fw = vc_bool();
  DayOfWeekRange r((DayOfWeek)s, (DayOfWeek)e); int L = off(e, s) + 1;
  FrequencyWeekBased f(mkdate(d), false, &r, fw);
  int d1 = daynum(f.mDay), k = (d + 1 - s) % 7;
  ENSURE(inr(d1, s, L));
  ENSURE(d1 == (k < L ? d : fw ? d + (7 - k) : d - (k - L + 1)));
}
