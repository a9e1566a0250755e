#include "common.h"
// C12: incremental cell features against direct computation
using CF = comma::CellFeatures<Idx, Real, Int>;
using AR = comma::ARComputer<Idx, Real, Int>;
namespace {
struct Ref { double measure, ext, in, mind, maxd; int nint; VR sum; };
double total_w(const Mesh &m, Idx c) {
  double s = 0; for (Idx k = m.row[c]; k < m.row[c + 1]; ++k) s += m.w[k];
  if (m.nbnd[c] > 0) s += m.nbnd[c] * s / m.deg(c);
  return s;
}
double sqd(const VR &a, const VR &b) { double d = 0; for (size_t i = 0; i < a.size(); ++i) d += (a[i] - b[i]) * (a[i] - b[i]); return d; }
Ref direct(const Mesh &m, const std::set<Idx> &s) {
  Ref f{0, 0, 0, std::numeric_limits<double>::max(), 0, 0, VR(m.dim, 0.0)};
  for (Idx c : s) {
    f.measure += m.vol[c]; f.ext += total_w(m, c);
    for (int d = 0; d < m.dim; ++d) f.sum[d] += m.vol[c] * m.cen[c][d];
    for (Idx k = m.row[c]; k < m.row[c + 1]; ++k) if (s.count(m.col[k])) { f.ext -= m.w[k]; if (m.col[k] < c) { f.in += m.w[k]; f.nint++; } }
    for (Idx e : s) if (e < c) { double q = sqd(m.cen[c], m.cen[e]); f.mind = std::min(f.mind, q); f.maxd = std::max(f.maxd, q); }
  }
  return f;
}
}  // namespace
uint64_t run_case(uint64_t seed, uint64_t idx, Dump &dump) {
  Rng r(seed, idx);
  Mesh m = gen_mesh(r, size_for(idx));
  // isolated boundary cells have no defined boundary weight
  for (int i = 0; i < m.n; ++i) if (m.deg(i) == 0) m.nbnd[i] = 0;
  auto g = make_graph(m);
  const int t = r.in(0, 9);
  std::unique_ptr<AR> ar;
  const double tol = 1e-3;
  switch (t) {
    case 0: if (m.dim == 2) ar = std::make_unique<comma::ARDiamOverRadius<Idx, Real, Int, 2>>(g); else ar = std::make_unique<comma::ARDiamOverRadius<Idx, Real, Int, 3>>(g); break;
    case 1: ar = std::make_unique<comma::ARDiamOverMinEdge<Idx, Real, Int>>(g); break;
    case 2: ar = std::make_unique<comma::ARDiameter<Idx, Real, Int>>(g); break;
    case 3: ar = std::make_unique<comma::AROverMeasure<Idx, Real, Int>>(g); break;
    case 4: ar = std::make_unique<comma::AROverInternalWeights<Idx, Real, Int>>(g); break;
    case 5: if (m.dim == 2) ar = std::make_unique<comma::ARExternalWeightOverRadius<Idx, Real, Int, 2>>(g); else ar = std::make_unique<comma::ARExternalWeightOverRadius<Idx, Real, Int, 3>>(g); break;
    case 6: ar = std::make_unique<comma::ARExternalWeights<Idx, Real, Int>>(g); break;
    case 7: if (m.dim == 2) ar = std::make_unique<comma::ARMaxBaryDistanceOverRadius<Idx, Real, Int, 2>>(g); else ar = std::make_unique<comma::ARMaxBaryDistanceOverRadius<Idx, Real, Int, 3>>(g); break;
    case 8: ar = std::make_unique<comma::ARMaxOverMinBaryDistance<Idx, Real, Int>>(g, tol); break;
    case 9: ar = std::make_unique<comma::ARExternalWeightOverRadius<Idx, Real, Int, 1>>(g); break;
  }
  std::unordered_set<Idx> s; std::set<Idx> S;
  Idx c0 = r.in(0, m.n - 1);
  s.insert(c0); S.insert(c0);
  CF f(c0, g);
  std::string hist = " type " + std::to_string(t) + " cells " + std::to_string(c0);
  dump = show(m) + hist + "\n";
  const int steps = r.in(1, 8);
  int done = 0;
  for (int k = 0; k < steps; ++k) {
    VI cand;
    for (Idx a : S) for (Idx e = m.row[a]; e < m.row[a + 1]; ++e) if (!S.count(m.col[e])) cand.push_back(m.col[e]);
    if (cand.empty()) break;
    const Idx c = cand[r.in(0, static_cast<int>(cand.size()) - 1)];
    hist += " " + std::to_string(c);
    dump = show(m) + hist + "\n";
    CF nf; Int sf = -1; Real a = -1;
    if (r.p(0.5)) nf = f;
    ar->compute_and_update_features(c, f, s, sf, a, nf);
    int es = 0; for (Idx e = m.row[c]; e < m.row[c + 1]; ++e) es += S.count(m.col[e]) > 0;
    const size_t before = S.size();
    S.insert(c); s.insert(c);
    Ref d = direct(m, S);
    REQUIRE_T(sf == es, "shared faces " << sf << " instead of " << es << hist);
    REQUIRE_T(close(nf._measure, d.measure), "measure " << nf._measure << " instead of " << d.measure << hist);
    REQUIRE_T(nf._n_internal_faces == d.nint, "internal faces " << nf._n_internal_faces << " instead of " << d.nint << hist);
    if (t == 4 || t == 5 || t == 6 || t == 9) {
      REQUIRE_T(close(nf._internal_weights, d.in), "internal weights " << nf._internal_weights << " instead of " << d.in << hist);
      REQUIRE_T(close(nf._external_weights, d.ext), "external weights " << nf._external_weights << " instead of " << d.ext << hist);
    }
    if (t <= 2) {
      REQUIRE_T(close(nf._sq_diam, d.maxd), "squared diameter " << nf._sq_diam << " instead of " << d.maxd << hist);
      REQUIRE_T(close(nf._sq_min_edge, d.mind), "squared smallest edge " << nf._sq_min_edge << " instead of " << d.mind << hist);
    }
    VR b(m.dim);
    double mx = 0, mn = std::numeric_limits<double>::max(), mxt = std::numeric_limits<double>::min();
    bool edgy = false;
    if (t == 7 || t == 8) {
      for (int i = 0; i < m.dim; ++i) { REQUIRE_T(close(nf._sum_centers[i], d.sum[i]), "sum of weighted centres wrong" << hist); b[i] = d.sum[i] / S.size(); }
      for (Idx e : S) {
        const double q = sqd(b, m.cen[e]); mx = std::max(mx, q);
        int ext = m.nbnd[e]; for (Idx k2 = m.row[e]; k2 < m.row[e + 1]; ++k2) ext += S.count(m.col[k2]) == 0;
        if (ext > 0 && std::sqrt(q) > tol) { mn = std::min(mn, std::sqrt(q)); mxt = std::max(mxt, std::sqrt(q)); }
        if (std::fabs(std::sqrt(q) - tol) < 1e-7) edgy = true;
      }
    }
    double e = 0; const bool d2 = m.dim == 2;
    switch (t) {
      case 0: e = d2 ? d.maxd / d.measure : d.maxd * d.maxd * d.maxd / (d.measure * d.measure); break;
      case 1: e = before == 1 ? d.maxd : d.maxd / d.mind; break;
      case 2: e = d.maxd; break;
      case 3: e = 1 / d.measure; break;
      case 4: e = 1 / d.in; break;
      case 5: e = d2 ? d.ext * d.ext / d.measure : d.ext * d.ext * d.ext / (d.measure * d.measure); break;
      case 6: e = d.ext; break;
      case 7: e = d2 ? mx / d.measure : mx * mx * mx / (d.measure * d.measure); break;
      case 8: e = mxt / mn; break;
      case 9: e = d.ext / d.measure; break;
    }
    if (!edgy) REQUIRE_T(close(a, e, 1e-6), "aspect ratio " << a << " instead of " << e << hist);
    f = nf; ++done;
  }
  return done > 1 ? 1 + t + 16 * done + 256 * m.n : 0;
}
FALSIFIER("C12")
