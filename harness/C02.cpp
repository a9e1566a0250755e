#include "common.h"
// C02: every coarse cell is connected
uint64_t run_case(uint64_t seed, uint64_t idx, Dump &dump) {
  Rng r(seed, idx);
  Mesh m = gen_mesh(r, size_for(idx));
  Opts o = gen_opts(r, m);
  dump = show(m) + show(o);
  Res x = run(m, o);
  auto g = groups(x.f2c);
  size_t big = 0;
  for (size_t i = 0; i < g.size(); ++i) {
    big = std::max(big, g[i].size());
    REQUIRE_T(connected_set(m, g[i]), "coarse cell " << i << " is not connected: " << show(g[i]) << " f2c=" << show(x.f2c));
  }
  return big > 2 ? big * 100000 + g.size() * 1000 + o.corr * 2 + o.aniso + 1 : 0;
}
FALSIFIER("C02")
