#include "common.h"
// C15: filter by number of edges
uint64_t run_case(uint64_t seed, uint64_t idx, Dump &dump) {
  Rng r(seed, idx);
  Mesh m = gen_mesh(r, size_for(idx));
  std::unordered_set<Int> allowed;
  const int na = r.in(0, 4);
  for (int i = 0; i < na; ++i) allowed.insert(r.in(-1, 8));
  std::vector<int> av(allowed.begin(), allowed.end());
  dump = show(m) + "allowed=" + show(av) + "\n";
  VI out{3, 3, 3};
  comma::filter_cells_by_n_edges<Idx, Int>(m.row, m.nbnd, allowed, out);
  VI e;
  for (int c = 0; c < m.n; ++c) { const int k = m.deg(c) + m.nbnd[c]; if (k > 0 && allowed.count(k)) e.push_back(c); }
  REQUIRE_T(out == e, "filtered " << show(out) << " instead of " << show(e));
  return e.empty() ? 0 : 1 + e.size() + 128 * m.n + 16384 * na;
}
FALSIFIER("C15")
