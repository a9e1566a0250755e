#include "common.h"
// C20: tagging of anisotropic cells
uint64_t run_case(uint64_t seed, uint64_t idx, Dump &dump) {
  Rng r(seed, idx);
  Mesh m = gen_mesh(r, size_for(idx));
  Opts o = gen_opts(r, m, 1);
  o.build = true;
  double thr = o.thr; if (thr >= 0 && thr <= 1) thr = 1 / thr;
  // put the threshold exactly on the ratio of some cell every now and then
  auto g = make_graph(m, o.compliant);
  const auto ratio = [&](Idx c) {
    double mx = 0, mn = std::numeric_limits<double>::max();
    for (Idx k = m.row[c]; k < m.row[c + 1]; ++k) { mx = std::max(mx, m.w[k]); mn = std::min(mn, m.w[k]); }
    return m.dim == 2 ? mx / mn : std::sqrt(mx / mn);
  };
  if (r.p(0.3)) { const Idx c = r.in(0, m.n - 1); if (m.deg(c) > 0) thr = ratio(c); }
  dump = show(m) + show(o) + " threshold=" + std::to_string(thr) + "\n";
  VR alt, maxw(m.n, 0.0); std::vector<bool> tag(m.n, false); std::deque<Idx> pool;
  g->tag_anisotropic_cells(alt, maxw, tag, pool, thr, m.prio, static_cast<comma::CoMMACellCouplingT>(o.coupling), 0);
  std::vector<bool> compl_(m.n, false); for (Idx c : o.compliant) compl_[c] = true;
  VI e;
  for (int c = 0; c < m.n; ++c) {
    const bool want = compl_[c] && (thr < 0 || ratio(c) >= thr);
    REQUIRE_T(tag[c] == want, "cell " << c << (want ? " is not tagged" : " is tagged") << " with ratio " << (m.deg(c) ? ratio(c) : 0.0) << " threshold " << thr);
    if (want) e.push_back(c);
    if (compl_[c]) {
      double x = 0;
      for (Idx k = m.row[c]; k < m.row[c + 1]; ++k) {
        double q = m.w[k];
        if (o.coupling == 1) { double d = 0; for (int i = 0; i < m.dim; ++i) d += (m.cen[c][i] - m.cen[m.col[k]][i]) * (m.cen[c][i] - m.cen[m.col[k]][i]); q = 1 / d;
          REQUIRE_T(alt.size() == m.w.size() && close(alt[k], q), "coupling of edge " << c << "-" << m.col[k] << " wrong"); }
        x = std::max(x, q);
      }
      REQUIRE_T(close(maxw[c], x), "reference coupling of cell " << c << " is " << maxw[c] << " instead of " << x);
    }
  }
  std::sort(e.begin(), e.end(), [&](Idx a, Idx b) { return ranks_before(m.prio[a], a, m.prio[b], b); });
  REQUIRE_T(VI(pool.begin(), pool.end()) == e, "tagged cells " << show(VI(pool.begin(), pool.end())) << " instead of " << show(e));
  return e.size() ? 1 + e.size() + 128 * m.n + 16384 * o.coupling : 0;
}
FALSIFIER("C20")
