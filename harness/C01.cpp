#include "common.h"
// C01: complete partition with numbers 0..N-1
uint64_t run_case(uint64_t seed, uint64_t idx, Dump &dump) {
  Rng r(seed, idx);
  Mesh m = gen_mesh(r, size_for(idx));
  Opts o = gen_opts(r, m);
  dump = show(m) + show(o);
  Res x = run(m, o);
  REQUIRE_T(static_cast<int>(x.f2c.size()) == m.n, "fc_to_cc has " << x.f2c.size() << " entries for " << m.n << " cells");
  auto g = groups(x.f2c);
  for (size_t i = 0; i < g.size(); ++i) REQUIRE_T(!g[i].empty(), "coarse number " << i << " skipped (of " << g.size() << "); f2c=" << show(x.f2c));
  return g.size() > 1 ? g.size() * 1000 + m.n * 4 + o.aniso * 2 + o.corr + 1 : 0;
}
FALSIFIER("C01")
