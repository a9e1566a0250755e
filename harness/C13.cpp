#include "common.h"
// C13: coarse graph
uint64_t run_case(uint64_t seed, uint64_t idx, Dump &dump) {
  Rng r(seed, idx);
  Mesh m = gen_mesh(r, size_for(idx));
  VI f2c(m.n);
  const int K = r.in(1, m.n);
  for (int i = 0; i < m.n; ++i) f2c[i] = i < K ? i : r.in(0, K - 1);
  r.shuffle(f2c);
  dump = show(m) + "f2c=" + show(f2c) + "\n";
  VI ci{9, 9}, ca{3}; VR cw{1.}, cv{2., 2.}, cp{5.}; std::vector<VR> cc{{1.}}; std::vector<Int> cb{4, 4, 4};
  comma::build_coarse_graph<Idx, Real, Int>(f2c, m.row, m.col, m.w, m.vol, m.cen, m.prio, m.nbnd, ci, ca, cw, cv, cc, cp, cb);
  std::string S = " c_adj_idx=" + show(ci) + " c_adj=" + show(ca) + " c_weights=" + show(cw);
  REQUIRE_T(static_cast<int>(ci.size()) == K + 1 && ci[0] == 0 && ci.back() == ca.size() && ca.size() == cw.size(), "malformed compressed rows" << S);
  REQUIRE_T(static_cast<int>(cv.size()) == K && static_cast<int>(cp.size()) == K && static_cast<int>(cb.size()) == K && static_cast<int>(cc.size()) == K, "wrong sizes");
  size_t edges = 0;
  for (int I = 0; I < K; ++I) {
    std::map<Idx, double> e; double vol = 0, pr = -std::numeric_limits<double>::infinity(); int b = std::numeric_limits<int>::min();
    for (int c = 0; c < m.n; ++c) if (f2c[c] == static_cast<Idx>(I)) {
      vol += m.vol[c]; pr = std::max(pr, m.prio[c]); b = std::max(b, m.nbnd[c]);
      for (Idx k = m.row[c]; k < m.row[c + 1]; ++k) if (f2c[m.col[k]] != static_cast<Idx>(I)) e[f2c[m.col[k]]] += m.w[k];
    }
    REQUIRE_T(ci[I] <= ci[I + 1] && ci[I + 1] <= ca.size(), "offsets decrease" << S);
    std::map<Idx, double> got;
    for (Idx k = ci[I]; k < ci[I + 1]; ++k) { REQUIRE_T(!got.count(ca[k]), "coarse neighbour listed twice" << S); got[ca[k]] = cw[k]; }
    REQUIRE_T(got.size() == e.size(), "coarse cell " << I << " has " << got.size() << " neighbours instead of " << e.size() << S);
    for (auto &[j, w] : e) { REQUIRE_T(got.count(j), "coarse edge " << I << "-" << j << " missing" << S); REQUIRE_T(close(got[j], w), "coarse edge " << I << "-" << j << " has weight " << got[j] << " instead of " << w << S); }
    edges += e.size();
    REQUIRE_T(close(cv[I], vol), "coarse volume " << I << " is " << cv[I] << " instead of " << vol);
    REQUIRE_T(cp[I] == pr, "coarse priority " << I << " is " << cp[I] << " instead of " << pr);
    REQUIRE_T(cb[I] == b, "coarse boundary faces " << I << " is " << cb[I] << " instead of " << b);
  }
  return edges ? 1 + edges + 512 * K + 65536 * m.n : 0;
}
FALSIFIER("C13")
