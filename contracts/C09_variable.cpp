#include "freq_common.h"
#include "/repo/src/array.cpp"
#include "/repo/src/ldt_base.cpp"
#include "/repo/src/variable/variable.cpp"
#include "/repo/src/variable/variables.cpp"
#ifndef VC_NATIVE
// assumed contract: the name of a day of the week is parsed back to that day (checked natively)
static int ghost_day;
extern "C" __attribute__((used)) const char *replace___ZNK5boost9gregorian12greg_weekday15as_short_stringEv(const unsigned short *w) { ghost_day = *w; return ""; }
extern "C" __attribute__((used)) DayOfWeek replace___ZN3ldt20FromString_DayOfWeekEPKc(const char *) { return (DayOfWeek)ghost_day; }
#endif
// alignment of variables
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
typedef Variable<double> V; typedef std::unique_ptr<Frequency> F;
enum { CROSS, YEAR, MONTH };
static F freq(int kind, int a) {
  if (kind == CROSS) return F(new FrequencyCrossSection(a));
  if (kind == YEAR) return F(new FrequencyYearBased(2000 + a, 1, 1, 1));
  return F(new FrequencyYearBased(2000 + (a < 0 ? (a - 11) / 12 : a / 12), 12, (a % 12 + 12) % 12 + 1, 1));
}
static void fill(V &v, int n) { v.Data.clear(); for (int i = 0; i < n; i++) v.Data.push_back(vc_real()); }
static void align(int kind, int k) {
  V v[3]; int s[3], n[3], lo = 1000, hi = -1000, base = vc_int(20, 30); std::vector<V *> p;
  for (int i = 0; i < k; i++) { s[i] = dim(0, 2); n[i] = dim(1, 2); v[i].StartFrequency = freq(kind, base + s[i]); fill(v[i], n[i]); p.push_back(&v[i]); if (s[i] < lo) lo = s[i]; if (s[i] + n[i] > hi) hi = s[i] + n[i]; }
  Variables<double> r(p); int T = hi - lo;
  ENSURE(r.NumObs == T && (int)r.Data.size() == T * k && (int)r.Names.size() == k);
  F f = freq(kind, base + lo); ENSURE(r.StartFrequency->CompareTo(*f) == 0);
  for (int i = 0; i < k; i++) for (int t = 0; t < T; t++) { int q = t + lo - s[i]; double x = r.Data.at(t + T * i); if (q >= 0 && q < n[i]) ENSURE(x == v[i].Data.at(q)); else ENSURE(std::isnan(x)); }
}
HARNESS(align_cross) { vc_bounded(); align(CROSS, 2); }
HARNESS(align_year) { vc_bounded(); align(YEAR, 2); }
HARNESS(align_month) { vc_bounded(); align(MONTH, 2); }
HARNESS(align_3) { vc_bounded(); align(CROSS, 3); }
// any number of observations: an element of a column of the result
struct Ctx { Variables<double> *r; const double *d; int g, q, n; };
static bool want(const Ctx *c, double x) { return c->q >= 0 && c->q < c->n ? x == c->d[c->q] : std::isnan(x); }
CAND bool cand_all__filled(const Ctx *c, int i) { return i <= c->g || want(c, c->r->Data._M_impl._M_start[c->g]); }
template <int C> static void any(int kind, int b) {
  int a = vc_int(-10000, 10000), n0 = vc_size(1, 10000), n1 = vc_size(1, 10000); double *d0 = vc_array(n0), *d1 = vc_array(n1); V *v = new V[2]; std::vector<V *> p{&v[0], &v[1]};
  v[0].StartFrequency = freq(kind, b); v[1].StartFrequency = freq(kind, b + a); double *d[] = {d0, d1}; int n[] = {n0, n1};
  for (int i = 0; i < 2; i++) { auto &x = v[i].Data._M_impl; x._M_start = d[i]; x._M_finish = x._M_end_of_storage = d[i] + n[i]; }
  int lo = a < 0 ? a : 0, hi = n0 > a + n1 ? n0 : a + n1, T = hi - lo, t = vc_int(0, 30000); vc_assume(t < T);
  alignas(Variables<double>) static unsigned char raw[sizeof(Variables<double>)]; auto r = (Variables<double> *)raw; Ctx c{r, C ? d1 : d0, t + (C ? T : 0), t + lo - (C ? a : 0), C ? n1 : n0}; vc_ctx(&c);
  new (raw) Variables<double>(p); ENSURE(r->NumObs == T && (int)r->Data.size() == 2 * T); F f = freq(kind, b + lo); ENSURE(r->StartFrequency->CompareTo(*f) == 0); ENSURE(want(&c, r->Data._M_impl._M_start[c.g]));
}
HARNESS(any_cross_0) { any<0>(CROSS, vc_int(-1000, 1000)); }
HARNESS(any_cross_1) { any<1>(CROSS, vc_int(-1000, 1000)); }
HARNESS(any_year) { any<1>(YEAR, vc_int(-1000, 1000)); }
HARNESS(align_none) { vc_bounded(); std::vector<V *> p; ENSURE(vc_throws([&] { Variables<double> r(p); })); V v; v.StartFrequency = freq(CROSS, 1); p.push_back(&v); ENSURE(vc_throws([&] { Variables<double> r(p); })); }
HARNESS(align_mixed) { vc_bounded(); int a = dim(0, 2), b = dim(0, 2); V v[2]; v[0].StartFrequency = freq(a, 5); v[1].StartFrequency = freq(b, 6); for (auto &x : v) fill(x, 2); std::vector<V *> p{&v[0], &v[1]}; ENSURE(vc_throws([&] { Variables<double> r(p); }) == (a != b)); }
// trimming
static double miss(bool &m) { m = dim(0, 1); return m ? NAN : vc_real(); }
HARNESS(trim) {
  vc_bounded(); int n = dim(1, 4), s = vc_int(1, 100), lo = -1, hi = -1; V v; v.StartFrequency = freq(CROSS, s); double d[4]; bool m[4]; for (int i = 0; i < n; i++) { d[i] = miss(m[i]); v.Data.push_back(d[i]); if (!m[i]) { if (lo < 0) lo = i; hi = i; } }
  IndexRange r = v.Trim(); ENSURE(r.IsNotValid() == (lo < 0));
  if (lo < 0) { ENSURE((int)v.Data.size() == n && ((FrequencyCrossSection *)v.StartFrequency.get())->mPosition == s); return; }
  ENSURE(r.StartIndex == lo && r.EndIndex == hi && (int)v.Data.size() == hi - lo + 1 && ((FrequencyCrossSection *)v.StartFrequency.get())->mPosition == s + lo);
  for (int i = lo; i <= hi; i++) if (m[i]) ENSURE(std::isnan(v.Data.at(i - lo))); else ENSURE(v.Data.at(i - lo) == d[i]);
}
HARNESS(end) { int k = dim(0, 2), s = vc_int(20, 100), n = vc_size(0, 10000); V *v = new V; double *d = vc_array(n); auto &x = v->Data._M_impl; x._M_start = d; x._M_finish = x._M_end_of_storage = d + n; v->StartFrequency = freq(k, k == MONTH ? s % 12 : s); F e = v->GetEndFrequency(); ENSURE(e->Minus(*v->StartFrequency) == n && v->StartFrequency->CompareTo(*freq(k, k == MONTH ? s % 12 : s)) == 0); }
// conversions; the aggregate is the sum of the part weighted by the position, with the number of elements
static double agg(const std::vector<double> &v) { double s = 100 * (double)v.size(); for (int i = 0; i < (int)v.size(); i++) s += std::isnan(v[i]) ? 1000 : v[i] * (i + 1); return s; }
typedef std::function<double(const std::vector<double> &)> Fun;
HARNESS(multi_day) {
  vc_bounded(); int n = dim(1, 5), k = dim(1, 3), d = vc_int(2400000, 2500000); bool end = dim(0, 1); V v, r; v.StartFrequency = FrequencyWeekBased::Daily(mkdate(d)); fill(v, n); Fun f = agg; ENSURE(vc_throws([&] { v.ConvertTo_MultiDaily(r, k, nullptr, end); }));
  v.ConvertTo_MultiDaily(r, k, &f, end); int m = (n + k - 1) / k, off = end ? m * k - n : 0; ENSURE((int)r.Data.size() == m);
  for (int i = 0; i < m; i++) { std::vector<double> p; for (int j = 0; j < k; j++) { int q = i * k + j - off; if (q >= 0 && q < n) p.push_back(v.Data.at(q)); } ENSURE(vc_same(r.Data.at(i), agg(p))); }
  auto &w = dynamic_cast<FrequencyWeekBased &>(*r.StartFrequency); ENSURE(w.mClass == (k == 1 ? FrequencyClass::kDaily : FrequencyClass::kMultiDaily) && w.mMulti == k && daynum(w.mDay) == d); ENSURE((int)v.Data.size() == n);
}
// days of a week to daily: every observation is at its date, the days between are missing
static void week(int n, int s, int len, int d) {
  DayOfWeekRange g((DayOfWeek)s, (DayOfWeek)((s + len - 1) % 7)); V v, r; v.StartFrequency = FrequencyWeekBased::DailyInWeek(mkdate(d), g, true); fill(v, n); v.ConvertTo_Daily(r, nullptr);
  auto &w = dynamic_cast<FrequencyWeekBased &>(*r.StartFrequency); ENSURE(w.mClass == FrequencyClass::kDaily && daynum(w.mDay) == d);
  int q = 0, t = 0; for (; q < n; t++) { ENSURE(t < (int)r.Data.size()); bool in = (d + t + 1 - s + 7) % 7 < len; if (in) { ENSURE(r.Data.at(t) == v.Data.at(q)); q++; } else ENSURE(std::isnan(r.Data.at(t))); } ENSURE(t == (int)r.Data.size());
}
static int first(int s) { int d = 2400000; while ((d + 1 - s) % 7) d++; return d; }
HARNESS(week_to_daily) { vc_bounded(); int n = 2 + 3 * dim(0, 2), s = dim(0, 6); week(n, s, dim(1, 7), first(s)); }
HARNESS(kf_week_middle) { int s = 1; week(4, s, 5, first(s) + 2); } // a start on Wednesday of a Monday-Friday series
HARNESS(list_to_daily) {
  vc_bounded(); int n = dim(1, 3), b = vc_int(2400000, 2500000), o[3]; std::vector<boost::gregorian::date> l; for (int i = 0; i < n; i++) { o[i] = dim(0, 3); for (int j = 0; j < i; j++) vc_assume(o[i] != o[j]); l.push_back(mkdate(b + o[i])); }
  V v, r; v.StartFrequency = F(new FrequencyList<boost::gregorian::date>(l[0], &l)); fill(v, n); v.ConvertTo_Daily(r, nullptr); int lo = 9, hi = 0; for (int i = 0; i < n; i++) { if (o[i] < lo) lo = o[i]; if (o[i] > hi) hi = o[i]; }
  auto &w = dynamic_cast<FrequencyWeekBased &>(*r.StartFrequency); ENSURE(w.mClass == FrequencyClass::kDaily && daynum(w.mDay) == b + lo && (int)r.Data.size() == hi - lo + 1);
  for (int t = lo; t <= hi; t++) { int q = -1; for (int i = 0; i < n; i++) if (o[i] == t) q = i; if (q < 0) ENSURE(std::isnan(r.Data.at(t - lo))); else ENSURE(r.Data.at(t - lo) == v.Data.at(q)); }
}
HARNESS(weekly) {
  vc_bounded(); int n = dim(1, 9), s = dim(0, 6), d = vc_int(2400000, 2400006); d = vc_pin(d, 2400000, 2400006); V v, r; v.StartFrequency = FrequencyWeekBased::Daily(mkdate(d)); fill(v, n); Fun f = agg; v.ConvertTo_Weekly(r, (DayOfWeek)s, &f);
  int off = ((d + 1) % 7 - s + 7) % 7, m = (n + off + 6) / 7; auto &w = dynamic_cast<FrequencyWeekBased &>(*r.StartFrequency); ENSURE(w.mClass == FrequencyClass::kWeekly && daynum(w.mDay) == d - off && (int)r.Data.size() == m);
  for (int i = 0; i < m; i++) { std::vector<double> p; for (int j = 0; j < 7; j++) { int q = i * 7 + j - off; if (q < n) p.push_back(q < 0 ? NAN : v.Data.at(q)); } ENSURE(vc_same(r.Data.at(i), agg(p))); }
}
// parts of a year: every part holds the observations of its days, in order
static int month_days(int y, int m) { return m == 2 ? (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) ? 29 : 28) : m == 4 || m == 6 || m == 9 || m == 11 ? 30 : 31; }
struct Day { int y, m, d; void next() { if (++d > month_days(y, m)) { d = 1; if (++m > 12) { m = 1; y++; } } } int doy() const { int r = d; for (int i = 1; i < m; i++) r += month_days(y, i); return r; } };
template <class P, class C> static void year_parts(Day day, int n, int x, P part, C convert) {
  V v, r; v.StartFrequency = FrequencyWeekBased::Daily(boost::gregorian::date(day.y, day.m, day.d)); fill(v, n); Fun f = agg; ENSURE(vc_throws([&] { convert(v, r, (Fun *)nullptr); })); convert(v, r, &f);
  auto &w = dynamic_cast<FrequencyYearBased &>(*r.StartFrequency); ENSURE(w.mYear == day.y && w.mPartitionCount == x && w.mYearMulti == 1 && w.mPosition == part(day));
  int k = 0, i = 0; while (i < n) { int y = day.y, p = part(day); std::vector<double> e; while (i < n && day.y == y && part(day) == p) { e.push_back(v.Data.at(i)); i++; day.next(); } ENSURE(k < (int)r.Data.size()); ENSURE(vc_same(r.Data.at(k), agg(e))); k++; } ENSURE(k == (int)r.Data.size());
}
template <int x> static void months(int y, int m, int d, int n) { year_parts(Day{y, m, d}, n, x, [](const Day &a) { return x == 24 ? 2 * a.m - (a.d > 15 ? 0 : 1) : (a.m - 1) / (12 / (x < 12 ? x : 12)) + 1; }, [](V &v, V &r, Fun *f) { v.ConvertTo_XxYear_month_based<x>(r, f); }); }
static void parts(int x, int y, int m, int d, int n) { year_parts(Day{y, m, d}, n, x, [x](const Day &a) { return (a.doy() - 1) * x / (month_days(a.y, 2) == 29 ? 366 : 365) + 1; }, [x](V &v, V &r, Fun *f) { v.ConvertTo_XxYear(r, x, f); }); }
template <int x> static void months() { vc_bounded(); int y = 2023 + dim(0, 1), m = dim(1, 12), b = dim(0, 1); months<x>(y, m, b && x == 24 ? 14 : month_days(y, m) - b, 4); }
HARNESS(months_1) { months<1>(); }
HARNESS(months_2) { months<2>(); }
HARNESS(months_3) { months<3>(); }
HARNESS(months_4) { months<4>(); }
HARNESS(months_6) { months<6>(); }
HARNESS(months_12) { months<12>(); }
HARNESS(months_24) { months<24>(); }
HARNESS(year_parts) { vc_bounded(); int c = dim(0, 4), x[] = {5, 1, 7, 52, 10}; int y = 2023 + dim(0, 1), m = dim(1, 12); parts(x[c], y, m, month_days(y, m) - 1 - c, 4); }
HARNESS(year_turn) { vc_bounded(); int c = dim(0, 4), x[] = {5, 1, 7, 52, 10}; parts(x[c], dim(2023, 2024), 12, 30, 4); }
HARNESS(wrong_class) { vc_bounded(); V v, r; int k = dim(0, 2); v.StartFrequency = freq(k, 5); fill(v, 2); Fun f = agg; ENSURE(vc_throws([&] { v.ConvertTo_Daily(r, &f); })); ENSURE(vc_throws([&] { v.ConvertTo_MultiDaily(r, 2, &f, true); })); ENSURE(vc_throws([&] { v.ConvertTo_Weekly(r, DayOfWeek::kMon, &f); })); ENSURE(vc_throws([&] { v.ConvertTo_XxYear(r, 5, &f); })); ENSURE(vc_throws([&] { v.ConvertTo_XxYear_month_based<12>(r, &f); })); }
#ifdef VC_NATIVE
HARNESS(nat_week_to_daily) { int s = vc_int(0, 6); week(vc_int(1, 80), s, vc_int(1, 7), first(s) + 7 * vc_int(0, 999)); }
HARNESS(nat_months) { int y = vc_int(1990, 2030), m = vc_int(1, 12), d = vc_int(1, month_days(y, m)), n = vc_int(1, 800), k = vc_int(0, 6); k == 0 ? months<1>(y, m, d, n) : k == 1 ? months<2>(y, m, d, n) : k == 2 ? months<3>(y, m, d, n) : k == 3 ? months<4>(y, m, d, n) : k == 4 ? months<6>(y, m, d, n) : k == 5 ? months<12>(y, m, d, n) : months<24>(y, m, d, n); }
HARNESS(nat_parts) { int y = vc_int(1990, 2030), m = vc_int(1, 12), d = vc_int(1, month_days(y, m)); parts(vc_int(1, 150), y, m, d, vc_int(1, 800)); }
HARNESS(nat_weekly) {
  int n = vc_int(1, 60), s = vc_int(0, 6), d = vc_int(2400000, 2500000); V v, r; v.StartFrequency = FrequencyWeekBased::Daily(mkdate(d)); fill(v, n); Fun f = agg; v.ConvertTo_Weekly(r, (DayOfWeek)s, &f);
  int off = ((d + 1) % 7 - s + 7) % 7, m = (n + off + 6) / 7; auto &w = dynamic_cast<FrequencyWeekBased &>(*r.StartFrequency); ENSURE(w.mClass == FrequencyClass::kWeekly && daynum(w.mDay) == d - off && (int)r.Data.size() == m);
  for (int i = 0; i < m; i++) { std::vector<double> p; for (int j = 0; j < 7; j++) { int q = i * 7 + j - off; if (q < n) p.push_back(q < 0 ? NAN : v.Data.at(q)); } ENSURE(vc_same(r.Data.at(i), agg(p))); }
}
HARNESS(nat_align) { // every frequency class
  int k = vc_int(1, 4), c = vc_int(0, 5), lo = 1000, hi = -1000, s[4]; V v[4]; std::vector<V *> p; int b = vc_int(2400000, 2500000); DayOfWeekRange g(DayOfWeek::kMon, DayOfWeek::kFri);
  for (int i = 0; i < k; i++) { s[i] = vc_int(0, 20); int n = vc_int(1, 15); fill(v[i], n); if (s[i] < lo) lo = s[i]; if (s[i] + n > hi) hi = s[i] + n; F f = c == 0 ? FrequencyWeekBased::Daily(mkdate(b)) : c == 1 ? FrequencyWeekBased::Weekly(mkdate(b)) : c == 2 ? FrequencyWeekBased::DailyInWeek(mkdate(b), g, true) : c == 3 ? freq(MONTH, b % 50) : c == 4 ? F(new FrequencyYearBased(2000 + b % 9, 4, b % 4 + 1, 1)) : F(FrequencyWeekBased::MultiDaily(mkdate(b), 3)); f->Next(s[i]); v[i].StartFrequency = std::move(f); p.push_back(&v[i]); }
  Variables<double> r(p); int T = hi - lo; ENSURE(r.NumObs == T && (int)r.Data.size() == T * k); for (int i = 0; i < k; i++) { ENSURE(v[i].StartFrequency->Minus(*r.StartFrequency) == s[i] - lo); for (int t = 0; t < T; t++) { int q = t + lo - s[i]; double x = r.Data.at(t + T * i); if (q >= 0 && q < (int)v[i].Data.size()) ENSURE(x == v[i].Data.at(q)); else ENSURE(std::isnan(x)); } }
}
#endif
