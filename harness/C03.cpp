#include "common.h"
// C03: cardinality limits of isotropic coarse cells without correction
uint64_t run_case(uint64_t seed, uint64_t idx, Dump &dump) {
  Rng r(seed, idx);
  Mesh m = gen_mesh(r, size_for(idx));
  Opts o = gen_opts(r, m);
  o.corr = false;
  dump = show(m) + show(o);
  Res x = run(m, o);
  auto g = groups(x.f2c);
  const bool on = o.aniso && (o.build || (o.lidx.size() >= 2 && !o.lines.empty()));
  const size_t n_aniso = on ? x.lines.size() : 0;
  uint64_t sg = 0;
  for (size_t i = n_aniso; i < g.size(); ++i) {
    REQUIRE_T(static_cast<int>(g[i].size()) <= o.maxc, "coarse cell " << i << " has " << g[i].size() << " > max cells; f2c=" << show(x.f2c));
    if (static_cast<int>(g[i].size()) < o.minc) {
      sg |= 1;
      for (Idx c : g[i]) for (Idx k = m.row[c]; k < m.row[c + 1]; ++k)
        REQUIRE_T(x.f2c[m.col[k]] <= i, "coarse cell " << i << " has " << g[i].size() << " < min cells but touches the later coarse cell " << x.f2c[m.col[k]] << "; f2c=" << show(x.f2c));
    } else if (static_cast<int>(g[i].size()) == o.maxc) sg |= 2; else sg |= 4;
  }
  return sg ? sg + 8 * g.size() + 8192 * o.maxc + 262144 * (o.minc * 16 + o.goal) : 0;
}
FALSIFIER("C03")
