#include "common.h"
// C22: subgraph editing against a plain adjacency map
uint64_t run_case(uint64_t seed, uint64_t idx, Dump &dump) {
  Rng r(seed, idx);
  Mesh m = gen_mesh(r, std::min(size_for(idx), 20));
  VI map(m.n);
  for (int i = 0; i < m.n; ++i) map[i] = 100 + 7 * i;
  r.shuffle(map);
  comma::Subgraph<Idx, Real, Int> sg(m.n, m.row, m.col, m.w, m.vol, map, true);
  std::map<Idx, double> vol; std::map<std::pair<Idx, Idx>, double> E;
  for (int i = 0; i < m.n; ++i) { vol[map[i]] = m.vol[i]; for (Idx k = m.row[i]; k < m.row[i + 1]; ++k) E[{map[i], map[m.col[k]]}] = m.w[k]; }
  std::string hist = " map=" + show(map);
  Idx fresh = 1000;
  const int steps = r.in(1, r.p(0.3) ? 20 : 6);
  for (int t = 0; t < steps; ++t) {
    if (r.p(0.5) && vol.size() > 1) {
      auto it = vol.begin(); std::advance(it, r.in(0, static_cast<int>(vol.size()) - 1));
      const Idx x = it->first;
      hist += " remove " + std::to_string(x); dump = show(m) + hist + "\n";
      sg.remove_node(x);
      vol.erase(x);
      for (auto e = E.begin(); e != E.end();) if (e->first.first == x || e->first.second == x) e = E.erase(e); else ++e;
    } else {
      VI nb; VR w; const Idx x = fresh++;
      for (auto &[v, q] : vol) { if (r.p(0.1)) { nb.push_back(5000 + v); w.push_back(9.5); } if (r.p(0.4)) { nb.push_back(v); w.push_back(0.5 + r.unit()); } }
      hist += " insert " + std::to_string(x) + " next to " + show(nb) + show(w); dump = show(m) + hist + "\n";
      const double v = r.unit() + 0.1;
      sg.insert_node(nb, x, v, w);
      for (size_t i = 0; i < nb.size(); ++i) if (vol.count(nb[i])) { E[{x, nb[i]}] = w[i]; E[{nb[i], x}] = w[i]; }
      vol[x] = v;
    }
    const size_t n = vol.size();
    REQUIRE_T(sg._mapping_l_to_g.size() == n && sg._volumes.size() == n && sg._m_CRS_Row_Ptr.size() == n + 1, "array sizes inconsistent after" << hist);
    REQUIRE_T(sg._m_CRS_Row_Ptr[0] == 0 && sg._m_CRS_Row_Ptr.back() == sg._m_CRS_Col_Ind.size() && sg._m_CRS_Values.size() == sg._m_CRS_Col_Ind.size(), "offsets inconsistent: " << show(sg._m_CRS_Row_Ptr) << " for " << sg._m_CRS_Col_Ind.size() << " entries after" << hist);
    std::map<std::pair<Idx, Idx>, double> G;
    for (size_t i = 0; i < n; ++i) {
      const Idx gi = sg._mapping_l_to_g[i];
      REQUIRE_T(vol.count(gi) && vol[gi] == sg._volumes[i], "node or volume wrong after" << hist);
      REQUIRE_T(sg._m_CRS_Row_Ptr[i] <= sg._m_CRS_Row_Ptr[i + 1] && sg._m_CRS_Row_Ptr[i + 1] <= sg._m_CRS_Col_Ind.size(), "offsets decrease after" << hist);
      for (Idx k = sg._m_CRS_Row_Ptr[i]; k < sg._m_CRS_Row_Ptr[i + 1]; ++k) {
        REQUIRE_T(sg._m_CRS_Col_Ind[k] < n, "neighbour index out of range after" << hist);
        const auto key = std::make_pair(gi, sg._mapping_l_to_g[sg._m_CRS_Col_Ind[k]]);
        REQUIRE_T(!G.count(key), "edge listed twice after" << hist);
        G[key] = sg._m_CRS_Values[k];
      }
    }
    REQUIRE_T(G == E, "edges differ from the expected ones after" << hist);
  }
  return m.n > 2 ? 1 + E.size() + 1024 * vol.size() : 0;
}
FALSIFIER("C22")
