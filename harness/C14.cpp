#include "common.h"
// C14: neighbourhood-based wall distance
uint64_t run_case(uint64_t seed, uint64_t idx, Dump &dump) {
  Rng r(seed, idx);
  Mesh m = gen_mesh(r, size_for(idx));
  VI wall;
  const int nw = r.in(0, 4);
  for (int i = 0; i < nw; ++i) wall.push_back(r.in(0, m.n - 1));
  dump = show(m) + "wall=" + show(wall) + "\n";
  std::vector<long> d{5, 5, 5};
  comma::compute_neighbourhood_based_wall_distance<Idx, long>(m.row, m.col, wall, d);
  // Bellman-Ford style reference
  const long INF = std::numeric_limits<long>::max() / 2;
  std::vector<long> e(m.n, INF);
  for (Idx w : wall) e[w] = 0;
  for (int it = 0; it < m.n; ++it) for (int c = 0; c < m.n; ++c) for (Idx k = m.row[c]; k < m.row[c + 1]; ++k) e[c] = std::min(e[c], e[m.col[k]] + 1);
  REQUIRE_T(static_cast<int>(d.size()) == m.n, "wrong size");
  long mx = 0;
  for (int c = 0; c < m.n; ++c) {
    if (e[c] >= INF) REQUIRE_T(d[c] < 0, "unreachable cell " << c << " has distance " << d[c]);
    else { REQUIRE_T(d[c] == e[c], "cell " << c << " has distance " << d[c] << " instead of " << e[c] << "; " << show(d)); mx = std::max(mx, e[c]); }
  }
  return mx ? 1 + mx + 128 * m.n + 16384 * nw : 0;
}
FALSIFIER("C14")
