#pragma once
#include "vc.h"
#include "/repo/src/frequency/f_base.cpp"
#include "/repo/src/frequency/f_year_based.cpp"
#include "/repo/src/frequency/f_cross_section.cpp"
#include "/repo/src/frequency/f_week_based.cpp"
#include "/repo/src/frequency/f_day_based.cpp"
#include "/repo/src/frequency/f_list.cpp"
#include "/repo/src/helpers.cpp"
using namespace ldt;
#ifndef VC_NATIVE
// assumed contract: the class check compares the class text; two frequencies
// built with the same parameters have the same class text (checked natively)
extern "C" __attribute__((used)) void replace___ZN3ldt9Frequency18CheckClassEqualityERKS0_S2_(const Frequency &a, const Frequency &b) {
  if (a.mClass != b.mClass) throw 1;
}
// assumed contract on boost: day 0 of the day count is a Monday
extern "C" __attribute__((used)) unsigned short replace___ZNK5boost9date_time4dateINS_9gregorian4dateENS2_18gregorian_calendarENS2_13date_durationEE11day_of_weekEv(const boost::gregorian::date *d) {
  return (unsigned short)((d->days_ + 1) % 7);
}
#endif
static inline boost::gregorian::date mkdate(int day) { return boost::gregorian::date((boost::gregorian::date::date_int_type)day); }
static inline int daynum(const boost::gregorian::date &d) { return (int)d.day_number(); }
static inline int pin7(int s) { if (s == 0) return 0; if (s == 1) return 1; if (s == 2) return 2; if (s == 3) return 3; if (s == 4) return 4; if (s == 5) return 5; return 6; }
static inline int sgn(long long x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
