#define LAPACK_NORM_UNUSED
#include "mat.h"
#include "solvers.h"
#include "/repo/src/ldt_math/polynomials/polynomial.cpp"
#include "/repo/src/ldt_math/polynomials/mpolynomial.cpp"
#include "/repo/src/ldt_statistics/scoring/scoring.cpp"
#include "/repo/src/ldt_statistics/distributions/distributions_uni.cpp"
#include "/repo/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp"
#include "/repo/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp"
#include "/repo/src/ldt_statistics/modeling/time_series/varma/varma_restriction.cpp"
#include "/repo/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp"
#include "/repo/src/ldt_statistics/modeling/time_series/varma/varma.cpp"
#include "/repo/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp"
#ifdef VC_NATIVE
#include "/repo/src/helpers.cpp"
#include "/repo/src/ldt_math/derivative.cpp"
#include "/repo/src/ldt_math/optimization/lmbfgsb.cpp"
#endif
// out-of-sample scores of VARMA models; goodness of fit of their estimates
#ifndef REP
#define REP extern "C" NOINLINE __attribute__((used))
#endif
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
// what the estimations and forecasts of the simulations must be given and what they give back
static struct { int g, N, hMax, at, count, forecasts; bool anyOk /* the estimates at hand are valid */, prev, R; double mult, cn; double *y; const Mat *exo; double *work; int size; double f[4][8], v[4][8]; bool fail[4], failF[4]; } G; // by sample end, [equation + g * (horizon - 1)]
#ifndef VC_NATIVE
static bool inside(double *p, int n) { return p >= G.work && p + n <= G.work + G.size; }
static double *estS; static int estN;
REP void replace___ZN3ldt5Varma10EstimateMlERKNS_6MatrixIdEEPS3_PdS6_S5_S5_ibdd(Varma *m, const Mat &d, const Mat *exo, double *wk, double *st, const Mat *R, const Mat *r, int se, bool use, double mult, double cn) {
  ENSURE(d.RowsCount == G.g && d.ColsCount == G.N); for (int i = 0; i < G.g * G.N; i++) ENSURE(d.Data[i] == G.y[i]); ENSURE(exo == G.exo && (R != nullptr) == G.R && r == nullptr && mult == G.mult && cn == G.cn);
  ENSURE(se == G.at); ENSURE(!use || (G.prev && G.anyOk)); ENSURE(inside(st, m->Result.StorageSize) && inside(wk, m->Result.WorkSize)); ENSURE(st + m->Result.StorageSize <= wk || wk + m->Result.WorkSize <= st); estS = st; estN = m->Result.StorageSize; G.at--; G.count++; G.anyOk = false;
  if (G.fail[se]) throw LdtException(ErrorType::kLogic, "x", "failed"); m->SampleEnd = se;
}
REP void replace___ZN3ldt13VarmaForecast9CalculateERKNS_5VarmaEPKNS_6MatrixIdEES7_PdS8_ib(VarmaForecast *f, const Varma &m, const Mat *exo, const Mat *u, double *st, double *wk, int h, bool isnew) {
  int se = G.at + 1; ENSURE(m.SampleEnd == se && !G.fail[se] && exo == G.exo && !isnew); ENSURE(u && u->RowsCount == G.g && u->ColsCount == G.N); for (int i = 0; i < G.g * G.N; i++) ENSURE(u->Data[i] == G.y[i]); ENSURE(h >= 1 && h <= se && h <= G.hMax && h <= f->mHorizon); ENSURE(h >= (se < G.hMax ? se : G.hMax));
  ENSURE(inside(st, f->StorageSize) && inside(wk, f->WorkSize) && (st + f->StorageSize <= estS || estS + estN <= st) && (st + f->StorageSize <= wk || wk + f->WorkSize <= st) && (wk + f->WorkSize <= estS || estS + estN <= wk)); G.forecasts++; if (G.failF[se]) throw LdtException(ErrorType::kLogic, "x", "failed"); G.anyOk = true;
  int A = f->StartIndex, n = G.g * (A + h); f->Forecast.SetData(st, G.g, A + h); if (f->mDoVariance) f->Variance.SetData(st + n, G.g, A + h); for (int i = 0; i < n; i++) { int k = i - G.g * A; st[i] = k < 0 ? 55 : G.f[se][k]; if (f->mDoVariance) st[n + i] = k < 0 ? 55 : G.v[se][k]; } for (int i = 0; i < f->WorkSize && i < 50; i++) wk[i] = 33;
}
#endif
static double score(ScoringType s, double a, double f, double sd, double last) {
  double e = a - f; if (e < 0) e = -e;
  switch (s) {
  case ScoringType::kDirection: return (a > last) == (f > last) && (a < last) == (f < last) ? 1 : 0;
  case ScoringType::kSign: return a == 0 || f == 0 ? 0.5 : (a > 0) == (f > 0) ? 1 : 0;
  case ScoringType::kMae: return e;
  case ScoringType::kRmse: return (a - f) * (a - f);
  case ScoringType::kMape: return e / a;
  case ScoringType::kRmspe: return (a - f) * (a - f) / (a * a);
  default: return Scoring::GetScoreCrpsNormal(a - f, 0, sd);
  }
}
// scores over all requested horizons of all samples with a valid forecast
static void scores(int g, std::vector<int> hs, int count, std::vector<ScoringType> ms, bool fails, int maxInvalid, bool lam, bool exo, bool prev, bool pos) {
  vc_bounded(); if (!vc_symbolic()) prev = false; // other starting values give slightly different estimates
  int H = hs.size(), M = ms.size(), hMax = hs[H - 1], q = 0, p = 1, x = exo ? 1 : 0; bool symbolic = vc_symbolic(); int N = symbolic ? 5 : 14; if (!symbolic) { q = vc_int(0, 1); p = vc_int(q ? 0 : 1, 2); } VarmaSizes z(N, g, x, p, 0, q, 0, 0, 0, 0, true);
  static double y[32], xo[20]; for (int i = 0; i < g * N; i++) { y[i] = vc_real(); if (pos) { if (symbolic) vc_assume(y[i] > 0); else y[i] = 1 + (y[i] < 0 ? -y[i] : y[i]); } } for (int i = 0; i < N + 4; i++) xo[i] = vc_real(); Mat Y(y, g, N), X(xo, x, N + 4); bool var = false; for (auto s : ms) var |= s == ScoringType::kCrps; std::vector<double> lm; double ls[2] = {2, symbolic ? 0.5 : NAN}; if (lam) for (int i = 0; i < g; i++) lm.push_back(ls[i]);
  static double cy[32]; for (int i = 0; i < g * N; i++) cy[i] = y[i]; G.g = g; G.N = N; G.hMax = hMax; G.at = count; G.count = G.forecasts = 0; G.anyOk = false; G.prev = prev; G.R = false; G.mult = 3; G.cn = INFINITY; G.y = cy; G.exo = exo ? &X : nullptr;
#ifndef VC_NATIVE
  for (int s = 1; s <= count; s++) { G.fail[s] = fails && dim(0, 1); G.failF[s] = fails && !G.fail[s] && s == 2 && dim(0, 1); for (int i = 0; i < g * hMax; i++) { G.f[s][i] = vc_real(); if (lam) vc_assume(G.f[s][i] > 0); G.v[s][i] = vc_real(); vc_assume(G.v[s][i] > 0); } }
#else // each sample on its own
  for (int s = 1; s <= count; s++) {
    Varma m(z, true, true, true); int h = s < hMax ? s : hMax; VarmaForecast F(z, hMax, var, false); std::vector<double> S(m.Result.StorageSize), W(std::max(m.Result.WorkSize, F.WorkSize)), FS(F.StorageSize); G.fail[s] = G.failF[s] = false;
    if (vc_throws([&] { m.EstimateMl(Y, G.exo, W.data(), S.data(), nullptr, nullptr, s, false, 3, INFINITY); F.Calculate(m, G.exo, &Y, FS.data(), W.data(), h); })) { G.fail[s] = true; continue; }
    for (int i = 0; i < g * h; i++) { G.f[s][i] = F.Forecast.Data[g * F.StartIndex + i]; G.v[s][i] = var ? F.Variance.Data[g * F.StartIndex + i] : 0; vc_assume(G.f[s][i] < 1e3 && G.f[s][i] > -1e3 && G.v[s][i] < 1e6); if (lam) vc_assume(G.f[s][i] > 0); }
  }
#endif
  int ok = 0, n = 0; static double E[16]; for (int i = 0; i < M * g; i++) E[i] = 0; bool invalid = false; int bad = 0;
  for (int s = count; s > 0; s--) { if (G.fail[s] || G.failF[s]) { bad++; continue; } ok++; for (int k = 0; k < H; k++) if (hs[k] <= s) { n++; for (int i = 0; i < g; i++) { auto inv = [&](double v) { if (lam) Array<double>::BoxCoxInv0(v, ls[i]); return v; }; int T = N - s - 1, at = i + g * (hs[k] - 1); for (int c = 0; c < M; c++) E[c + M * i] += score(ms[c], inv(y[i + g * (T + hs[k])]), inv(G.f[s][at]), std::sqrt(G.v[s][at]), inv(y[i + g * T])); } } }
  invalid = ok == 0 || bad > maxInvalid;
  VarmaSimulation u(z, count, hs, ms); static double S[32], W[8192]; vc_assume(u.StorageSize <= 30 && u.WorkSize <= 8190); for (int i = 0; i < 2; i++) S[u.StorageSize + i] = W[u.WorkSize + i] = 77; G.work = W; G.size = u.WorkSize; bool cancel = false;
  bool th = vc_throws([&] { u.Calculate(S, W, Y, cancel, exo ? &X : nullptr, nullptr, nullptr, prev, INFINITY, 3, false, maxInvalid, lam ? &lm : nullptr); }); ENSURE(S[u.StorageSize] == 77 && S[u.StorageSize + 1] == 77 && W[u.WorkSize] == 77 && W[u.WorkSize + 1] == 77); ENSURE(th == invalid); for (int i = 0; i < g * N; i++) ENSURE(y[i] == cy[i]); if (th) return;
  ENSURE(u.ValidCounts == ok && u.ResultAggs.RowsCount == M && u.ResultAggs.ColsCount == g && u.ResultAggs.Data == S);
#ifndef VC_NATIVE
  ENSURE(G.count == count);
#endif
  for (int c = 0; c < M; c++) for (int i = 0; i < g; i++) { double v = E[c + M * i] / n; if (ms[c] == ScoringType::kRmse || ms[c] == ScoringType::kRmspe) v = std::sqrt(v); if (ms[c] == ScoringType::kMape || ms[c] == ScoringType::kRmspe) v *= 100; ENSURE(vc_same(u.ResultAggs.Data[c + M * i], v)); }
}
static const ScoringType SC[7] = {ScoringType::kMae, ScoringType::kRmse, ScoringType::kMape, ScoringType::kRmspe, ScoringType::kCrps, ScoringType::kSign, ScoringType::kDirection};
HARNESS(scores_one) { int c = dim(0, 6); scores(1, {1}, 1, {SC[c]}, false, 0, false, false, false, c == 2 || c == 3); }
HARNESS(scores_count) { scores(1, {1}, 3, {SC[1]}, true, dim(0, 3), false, false, true, false); }
HARNESS(scores_horizons) { int c = dim(0, 3); scores(1, c == 0 ? std::vector<int>{1, 2} : c == 1 ? std::vector<int>{1, 3} : c == 2 ? std::vector<int>{1, 2, 3} : std::vector<int>{1}, 3, {SC[1]}, false, 0, false, dim(0, 1), false, false); }
HARNESS(scores_many) { bool c = dim(0, 1); scores(2, c ? std::vector<int>{1} : std::vector<int>{1, 2}, 2, {SC[c ? 4 : 3], SC[1], SC[0]}, true, 1, false, false, true, !c); }
HARNESS(scores_direction) { scores(1, {1, 2}, 2, {SC[5 + dim(0, 1)]}, false, 0, false, false, true, false); }
HARNESS(scores_lambda) { scores(2, {1}, 1, {SC[0], SC[1]}, false, 0, true, false, false, true); }
#ifdef VC_NATIVE
HARNESS(nat_scores) { int H = vc_int(1, 3); std::vector<int> hs = {1}; for (int h = 2; h <= 3; h++) if (vc_bool()) hs.push_back(h); std::vector<ScoringType> ms; bool pos = vc_bool(); for (int i = 0; i < 7; i++) if (vc_bool() && (pos || (i != 2 && i != 3))) ms.push_back(SC[i]); if (ms.empty()) return; bool crps = false; for (auto s : ms) crps |= s == SC[4]; scores(vc_int(1, 2), hs, vc_int(1, 3), ms, true, vc_int(0, 3), pos && !crps && vc_bool(), vc_bool(), false, pos); }
// scores do not depend on what storage and work contained before
HARNESS(nat_memory) {
  int g = vc_int(1, 2), x = vc_int(0, 1), q = vc_int(0, 1), p = vc_int(q ? 0 : 1, 1), d = vc_int(0, 1), C = vc_int(14, 16), N = C + vc_int(0, 2); bool prev = vc_bool(); VarmaSizes z(N, g, x, p, d, q, 0, 0, 0, 0, true); std::vector<double> y(g * C), xo(C + 4); for (auto &v : y) { v = vc_real(); vc_assume(v < 5 && v > -5); } for (auto &v : xo) v = vc_real(); Mat Y(y.data(), g, C), X(xo.data(), 1, C + 4);
  VarmaRestriction rs(z, VarmaRestrictionType::kMaFinal); std::vector<double> rd(rs.StorageSize + 1); if (q) rs.Calculate(rd.data()); Mat *R = q && rs.IsRestricted ? &rs.R : nullptr; std::vector<int> hs = {1, 2}; std::vector<ScoringType> ms = {SC[0], SC[1], SC[4]}; std::vector<double> r[3]; bool th[3]; double fill[3] = {0, 7, NAN};
  for (int c = 0; c < 3; c++) { VarmaSimulation u(z, 3, hs, ms); std::vector<double> S(u.StorageSize, fill[c]), W(u.WorkSize, fill[c]); bool cancel = false; th[c] = vc_throws([&] { u.Calculate(S.data(), W.data(), Y, cancel, x ? &X : nullptr, R, nullptr, prev, INFINITY, 3); }); if (!th[c]) for (int i = 0; i < 3 * g; i++) r[c].push_back(u.ResultAggs.Data[i]); }
  for (int c = 1; c < 3; c++) { ENSURE(th[c] == th[0]); for (size_t i = 0; i < r[0].size(); i++) ENSURE(vc_same(r[c][i], r[0][i])); }
}
#endif
// the goodness of fit of a model
HARNESS(goodness) {
  int T = vc_int(1, 1 << 20), g = vc_int(1, 64), f = vc_int(1, 16); double v = vc_real(); Varma m; CalculateGoodness(m, T, g, f, v); double ll = -((double)T * g * c_ln_2Pi_plus_one) / 2 - v / 2;
  ENSURE(vc_same(m.Result.LogLikelihood, ll)); ENSURE(vc_same(m.Result.Aic, 2.0 * g * f - 2 * m.Result.LogLikelihood)); ENSURE(vc_same(m.Result.Sic, std::log((double)T) * g * f - 2 * m.Result.LogLikelihood));
}
#include "optim_native.h"
