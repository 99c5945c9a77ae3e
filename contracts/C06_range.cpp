#include "vec.h"
#include "/repo/src/array.cpp"
#include "/repo/src/ldt_base.cpp"
using namespace ldt;
// g: an arbitrary position of the array
struct Ctx { const double *d; int n, g, s, e; };
CAND bool cand_all__before(const Ctx *c, int i) { return c->g >= i || std::isnan(c->d[c->g]); }       // everything before i is missing
CAND bool cand_all__after(const Ctx *c, int i) { return c->g < i || c->g >= c->n || std::isnan(c->d[c->g]); } // everything from i on is missing
SPEC bool spec_any(const double *d, int s, int e) { return e < s ? false : std::isnan(d[e]) || spec_any(d, s, e - 1); } // missing value in [s,e]
// no missing value in [k,i), where k is the first position that is not missing
SPEC int spec_start(const double *d, int n, int k) { return k >= n ? n : std::isnan(d[k]) ? spec_start(d, n, k + 1) : k; }
CAND bool cand_all__start(const Ctx *c, int i) { return spec_start(c->d, c->n, 0) == spec_start(c->d, c->n, i); }
CAND bool cand_all__clean(const Ctx *c, int i) { return !spec_any(c->d, spec_start(c->d, c->n, 0), i - 1); }
CAND bool cand_all__clean_g(const Ctx *c, int i) { int s = spec_start(c->d, c->n, 0); return !(c->g >= s && c->g < i) || !std::isnan(c->d[c->g]); }
template <bool M> static void range() {
  int n = vc_size(0, 100000); double *d = vc_array_nan(n); int g = vc_int(0, 100000); vc_assume(g < n || n == 0);
  Ctx c{d, n, g}; vc_ctx(&c);
  bool miss = false; IndexRange r = M ? Array<double>::GetRange(d, n, miss) : Array<double>::GetRange(d, n);
  if (n == 0) { ENSURE(r.IsNotValid()); return; }
  ENSURE(r.IsNotValid() || (0 <= r.StartIndex && r.StartIndex <= r.EndIndex && r.EndIndex < n));
  if (r.IsNotValid()) { ENSURE(std::isnan(d[g]) && !miss); return; }
  ENSURE(!std::isnan(d[r.StartIndex]) && !std::isnan(d[r.EndIndex]));
  if (g < r.StartIndex || g > r.EndIndex) ENSURE(std::isnan(d[g]));
  if (M && !miss && g >= r.StartIndex && g <= r.EndIndex) ENSURE(!std::isnan(d[g]));
}
HARNESS(range) { range<false>(); }
HARNESS(range_missing) { range<true>(); }
// a missing value is reported exactly if there is one inside the range
SPEC int spec_end(const double *d, int k) { return k < 0 ? -1 : std::isnan(d[k]) ? spec_end(d, k - 1) : k; }
SPEC bool spec_miss(const double *d, int s, int e) { return s > e ? false : std::isnan(d[s]) || spec_miss(d, s + 1, e); }
CAND bool cand_all__end(const Ctx *c, int i) { return spec_end(c->d, c->n - 1) == spec_end(c->d, i - 1); }
CAND bool cand_all__miss(const Ctx *c, int i) { int s = spec_start(c->d, c->n, 0), e = spec_end(c->d, c->n - 1); return i < s || spec_miss(c->d, s, e) == spec_miss(c->d, i, e); }
HARNESS(missing) {
  int n = vc_size(0, 100000); double *d = vc_array_nan(n);
  Ctx c{d, n, 0}; vc_ctx(&c);
  bool miss = true; IndexRange r = Array<double>::GetRange(d, n, miss);
  int s = spec_start(d, n, 0), e = spec_end(d, n - 1);
  if (s > e) ENSURE(r.IsNotValid() && !miss);
  else ENSURE(r.StartIndex == s && r.EndIndex == e && miss == spec_miss(d, s, e));
}
HARNESS(index_range) {
  int s = vc_int(-1000000, 1000000), e = vc_int(-1000000, 1000000); IndexRange r(s, e);
  if (s < 0 || e < s) ENSURE(r.IsNotValid() && r.Count() == 0);
  else ENSURE(!r.IsNotValid() && r.StartIndex == s && r.EndIndex == e && r.Count() == e - s + 1);
}
