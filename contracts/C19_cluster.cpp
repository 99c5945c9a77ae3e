#include "mat.h"
#include "rbtree.h"
#include "/repo/src/matrix/matrix_sym.cpp"
#include "/repo/src/ldt_statistics/clustering/hcluster.cpp"
typedef HClusterLinkage HL;
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
// ---- distance of a merged cluster (sizes a, b) to another one (size c), any sizes
template <HL L> static double dist(int a, int b, int c, double x, double y, double z) { HCluster<L> h(1); return h.CalculateDistance(a, b, c, x, y, z); }
#define IN int a = vc_int(1, 1000000), b = vc_int(1, 1000000), c = vc_int(1, 1000000); double x = vc_real(), y = vc_real(), z = vc_real(); vc_check_overflow()
HARNESS(link_single) { IN; ENSURE(vc_same(dist<HL::kSingle>(a, b, c, x, y, z), x < y ? x : y)); }
HARNESS(link_complete) { IN; ENSURE(vc_same(dist<HL::kComplete>(a, b, c, x, y, z), x > y ? x : y)); }
HARNESS(link_average_u) { IN; double A = a, B = b; ENSURE(vc_same(dist<HL::kAverageU>(a, b, c, x, y, z) * (A + B), A * x + B * y)); }
HARNESS(link_average_w) { IN; ENSURE(vc_same(dist<HL::kAverageW>(a, b, c, x, y, z) * 2, x + y)); }
HARNESS(link_ward) { IN; double A = a, B = b, C = c; ENSURE(vc_same(dist<HL::kWard>(a, b, c, x, y, z) * (A + B + C), (A + C) * x + (B + C) * y - C * z)); }
#ifdef VC_NATIVE
enum { LEN = 45, NOD = 19 };
#else
enum { LEN = 6, NOD = 7 };
#endif
// ---- the merges are those of the agglomerative algorithm (closest pair first)
template <HL L> static void merges(int n) {
  vc_bounded(); double d[LEN], o[LEN]; int len = n * (n - 1) / 2; for (int i = 0; i < len; i++) { o[i] = vc_real(); vc_assume(o[i] >= 0); d[i] = o[i]; }
  MatrixSym<false> D(d, n), O(o, n); HCluster<L> h(n); h.Calculate(D);
  ENSURE(h.Nodes.size() == (size_t)(2 * n - 1));
  int mask[NOD]; for (int i = 0; i < 2 * n - 1; i++) { auto &v = *h.Nodes[i]; ENSURE(v.id == i); if (i < n) { mask[i] = 1 << i; ENSURE(v.nodesWithin == 1); } else { ENSURE(v.idLeft < i && v.idRight < i && v.idLeft >= 0 && v.idRight >= 0); mask[i] = mask[v.idLeft] | mask[v.idRight]; ENSURE((mask[v.idLeft] & mask[v.idRight]) == 0 && v.nodesWithin == __builtin_popcount(mask[i])); } }
  // the same with the whole distance table
  double t[NOD][NOD]; int m[NOD], w[NOD]; bool live[NOD]; for (int i = 0; i < n; i++) { m[i] = 1 << i; w[i] = 1; live[i] = true; for (int j = 0; j < n; j++) if (i != j) t[i][j] = O.Get0(i, j); }
  for (int s = n; s < 2 * n - 1; s++) {
    int a = -1, b = -1; for (int i = 0; i < s; i++) for (int j = i + 1; j < s; j++) if (live[i] && live[j]) { if (a >= 0) vc_assume(t[i][j] != t[a][b]); if (a < 0 || t[i][j] < t[a][b]) a = i, b = j; }
    double H = t[a][b]; m[s] = m[a] | m[b]; w[s] = w[a] + w[b]; live[a] = live[b] = false; live[s] = true;
    for (int i = 0; i < s; i++) if (live[i]) { double x = t[a][i], y = t[b][i], A = w[a], B = w[b], C = w[i];
      t[s][i] = t[i][s] = L == HL::kSingle ? (x < y ? x : y) : L == HL::kComplete ? (x > y ? x : y) : L == HL::kAverageU ? (A * x + B * y) / (A + B) : L == HL::kAverageW ? (x + y) / 2 : ((A + C) * x + (B + C) * y - C * H) / (A + B + C); }
    bool found = false; for (int q = n; q < 2 * n - 1; q++) if (mask[q] == m[s]) { found = true; ENSURE(vc_same(h.Nodes[q]->leftDistanceRight, H)); } ENSURE(found);
  }
}
HARNESS(merges_single) { merges<HL::kSingle>(dim(1, 4)); }
HARNESS(merges_complete) { merges<HL::kComplete>(dim(2, 4)); }
HARNESS(merges_average_u) { merges<HL::kAverageU>(dim(2, 4)); }
HARNESS(merges_average_w) { merges<HL::kAverageW>(dim(2, 4)); }
HARNESS(merges_ward) { merges<HL::kWard>(dim(2, 4)); }
HARNESS(invalid) { vc_bounded(); int n = dim(2, 3), k = dim(-1, 2), q = dim(0, 1); double d[6]; for (int i = 0; i < 6; i++) d[i] = i + 1; vc_assume(k < n * (n - 1) / 2); if (k >= 0) d[k] = NAN; MatrixSym<false> D(d, n); HCluster<HL::kSingle> h(n + q); ENSURE(vc_throws([&] { h.Calculate(D); }) == (k >= 0 || q)); }
HARNESS(factory) { vc_bounded(); int l = dim(0, 4); HL t[] = {HL::kSingle, HL::kComplete, HL::kAverageU, HL::kAverageW, HL::kWard}; auto h = HClusterBase::GetFromType(t[l], 3); double d[3] = {1, 4, 6}; MatrixSym<false> D(d, 3); h->Calculate(D);
  double e[] = {4, 6, 5, 5, (2 * 4 + 2 * 6 - 1.) / 3}; ENSURE(vc_same(h->Nodes[4]->leftDistanceRight, e[l])); }
// ---- grouping and the table of merges, for every tree of up to four leaves
struct Tree {
  HCluster<HL::kSingle> h; int n, mask[NOD];
  explicit Tree(int n) : h(n), n(n) {
    for (int i = 0; i < n; i++) mask[i] = 1 << i;
    for (int s = n; s < 2 * n - 1; s++) {
      auto v = std::make_unique<HClusterNode>(); int L = 2 * n - s, c0 = dim(0, L * (L - 1) / 2 - 1), a = -1, b = -1; // any two clusters that are not merged yet
      for (int i = 0; i < s; i++) for (int j = i + 1; j < s; j++) if (!h.Nodes[i]->isMerged && !h.Nodes[j]->isMerged && c0-- == 0) a = i, b = j;
      v->id = s; v->idLeft = a; v->idRight = b; v->nodesWithin = h.Nodes[a]->nodesWithin + h.Nodes[b]->nodesWithin; v->leftDistanceRight = vc_real(); mask[s] = mask[a] | mask[b];
      vc_assume(v->leftDistanceRight >= 0); for (int c : {a, b}) { h.Nodes[c]->isMerged = true; if (c >= n) vc_assume(h.Nodes[c]->leftDistanceRight <= v->leftDistanceRight); }
      h.Nodes.push_back(std::move(v));
    }
  }
};
typedef std::vector<std::unique_ptr<std::vector<Ti>>> Groups;
static void group(const HClusterBase &h, int k, Groups &g, int *m) { for (int i = 0; i < k; i++) g.push_back(std::make_unique<std::vector<Ti>>()); h.Group(g); for (int i = 0; i < k; i++) { m[i] = 0; for (Ti v : *g[i]) m[i] |= 1 << v; } }
static void groups(int n, int k) { // k groups: a partition into sub-trees
  Tree t(n); Groups g; int m[NOD]; group(t.h, k, g, m);
  int all = 0, cnt = 0; for (int i = 0; i < k; i++) { ENSURE(m[i] != 0); all |= m[i]; cnt += (int)g[i]->size(); bool tree = false; for (int q = 0; q < 2 * n - 1; q++) tree |= t.mask[q] == m[i]; ENSURE(tree); }
  ENSURE(all == (1 << n) - 1 && cnt == n);
}
HARNESS(groups) { vc_bounded(); int n = dim(1, 4), k = dim(1, 4); vc_assume(k <= n); groups(n, k); }
HARNESS(kf_cut) { // the k groups are those left when the k-1 highest merges are undone
  vc_bounded(); int n = dim(1, 4), k = dim(1, 4); vc_assume(k <= n); Tree t(n); for (int a = n; a < 2 * n - 1; a++) for (int b = n; b < a; b++) vc_assume(t.h.Nodes[a]->leftDistanceRight != t.h.Nodes[b]->leftDistanceRight); Groups g; int m[4]; group(t.h, k, g, m);
  for (int i = 0; i < k; i++) for (int q = 0; q < 2 * n - 1; q++) if (t.mask[q] == m[i]) { int higher = 0; for (int p = n; p < 2 * n - 1; p++) if (q >= n && t.h.Nodes[p]->leftDistanceRight > t.h.Nodes[q]->leftDistanceRight) higher++; ENSURE(q < n || higher >= k - 1); }
}
static void merge_table(int n) { // ascending heights; every row joins leaves (negative) or earlier rows (positive)
  Tree t(n); Ti me[2 * NOD]; double he[NOD]; Matrix<Ti> M(me, n - 1, 2); Mat H(he, n - 1, 1); std::vector<Ti> ord; t.h.MergeR(M, H, ord); ENSURE((int)ord.size() == n - 1);
  int rm[NOD]; bool used[NOD]; for (int j = 0; j < NOD; j++) used[j] = false;
  for (int j = 0; j < n - 1; j++) {
    ENSURE(j == 0 || he[j] >= he[j - 1]); rm[j] = 0; int s = ord[j]; ENSURE(s >= 0 && s < n - 1 && !used[s]); used[s] = true; ENSURE(vc_same(he[j], t.h.Nodes[n + s]->leftDistanceRight));
    for (int c = 0; c < 2; c++) { int v = M.Get0(j, c); ENSURE(v != 0 && v >= -n && v <= j); int q = v < 0 ? 1 << (-v - 1) : rm[v - 1]; ENSURE((rm[j] & q) == 0); rm[j] |= q; int side = c ? t.h.Nodes[n + s]->idRight : t.h.Nodes[n + s]->idLeft; ENSURE(q == t.mask[side]); }
  }
}
HARNESS(merge_table) { vc_bounded(); merge_table(dim(2, 4)); }
#ifdef VC_NATIVE
HARNESS(nat_merges) { int n = vc_int(2, 10), l = vc_int(0, 4); l == 0 ? merges<HL::kSingle>(n) : l == 1 ? merges<HL::kComplete>(n) : l == 2 ? merges<HL::kAverageU>(n) : l == 3 ? merges<HL::kAverageW>(n) : merges<HL::kWard>(n); }
HARNESS(nat_groups) { int n = vc_int(1, 6); groups(n, vc_int(1, n)); }
HARNESS(nat_table) { merge_table(vc_int(2, 6)); }
#endif
