#include "vec.h"
#include <vector>
#include "/repo/src/array.cpp"
#include "/repo/src/ldt_base.cpp"
using namespace ldt;
// o: the data before, d: after
static void check(const double *o, const double *d, int n, IndexRange r, int count) {
  int s = 0, e = n - 1, in = 0;
  while (s < n && std::isnan(o[s])) s++;
  while (e >= 0 && std::isnan(o[e])) e--;
  if (s > e) ENSURE(r.IsNotValid() && count == 0); else ENSURE(r.StartIndex == s && r.EndIndex == e);
  for (int g = 0; g < n; g++) {
    if (!std::isnan(o[g])) { ENSURE(d[g] == o[g]); continue; }
    if (g < s || g > e) { ENSURE(std::isnan(d[g])); continue; }
    in++;
    int a = g, b = g; while (std::isnan(o[a])) a--; while (std::isnan(o[b])) b++;
    ENSURE(vc_same(d[g], o[a] + (o[b] - o[a]) * (g - a) / (b - a))); // on the line between the neighbours
  }
  if (s <= e) ENSURE(count == in);
}
// every pattern of missing values
static void all(int n) {
  vc_bounded(); double o[8], d[8]; int count = -1;
  for (int i = 0; i < n; i++) { if (vc_bool()) o[i] = NAN; else o[i] = vc_real(); d[i] = o[i]; }
  IndexRange r = Array<double>::Interpolate(d, n, count);
  check(o, d, n, r, count);
}
HARNESS(n0) { all(0); }
HARNESS(n1) { all(1); }
HARNESS(n2) { all(2); }
HARNESS(n3) { all(3); }
HARNESS(n4) { all(4); }
HARNESS(n5) { all(5); }
HARNESS(n6) { all(6); }
HARNESS(n7) { all(7); }
