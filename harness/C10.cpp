#include "common.h"
// C10: compactness
uint64_t run_case(uint64_t seed, uint64_t idx, Dump &dump) {
  Rng r(seed, idx);
  Mesh m = gen_mesh(r, size_for(idx));
  if (idx % 2) {
    auto g = make_graph(m);
    std::unordered_set<Idx> s; std::set<Idx> t;
    const double q = r.unit();
    for (int i = 0; i < m.n; ++i) if (r.p(q)) { s.insert(i); t.insert(i); }
    dump = show(m) + "set=" + show(VI(t.begin(), t.end())) + "\n";
    auto d = g->compute_fc_compactness_inside_a_cc(s);
    REQUIRE_T(d.size() == t.size(), "per-cell compactness lists " << d.size() << " cells of " << t.size());
    for (Idx c : t) {
      int k = 0; if (t.size() > 1) for (Idx e = m.row[c]; e < m.row[c + 1]; ++e) k += t.count(m.col[e]) > 0;
      REQUIRE_T(d.count(c) && d.at(c) == k, "compactness of cell " << c << " is not " << k);
    }
    const int v = g->compute_min_fc_compactness_inside_a_cc(s);
    REQUIRE_T(v == min_compact(m, t), "minimum compactness " << v << " instead of " << min_compact(m, t));
    return t.size() > 1 ? 1 + t.size() * 4 + v * 512 : 0;
  }
  Opts o = gen_opts(r, m);
  dump = show(m) + show(o);
  Internal I(m, o);
  I.all(o);
  uint64_t sg = 0;
  for (auto &[id, c] : I.cc->_ccs) if (c->_is_isotropic) {
    std::set<Idx> t(c->_s_fc.begin(), c->_s_fc.end());
    REQUIRE_T(c->_compactness == min_compact(m, t), "coarse cell " << id << " " << show(VI(t.begin(), t.end())) << " records compactness " << c->_compactness << " instead of " << min_compact(m, t));
    sg = sg * 7 + c->_compactness;
  }
  return sg * 2;
}
FALSIFIER("C10")
