#include "common.h"
// C05: cutting of anisotropic lines; C06 shares the reference cut
#include "lines.h"
uint64_t run_case(uint64_t seed, uint64_t idx, Dump &dump) {
  Rng r(seed, idx);
  Mesh m = gen_mesh(r, size_for(idx));
  Opts o = gen_opts(r, m, 1);
  dump = show(m) + show(o);
  Lines L = fine_lines(m, o);
  Res x = run(m, o);
  if (!L.on) return 0;
  auto ref = cut_all(m, o, L.lines);
  auto g = groups(x.f2c);
  size_t k = 0;
  uint64_t sg = 1;
  for (auto &line : ref) for (auto &cell : line) {
    std::vector<Idx> c(cell); std::sort(c.begin(), c.end());
    REQUIRE_T(k < g.size(), "missing anisotropic coarse cell");
    REQUIRE_T(g[k] == c, "anisotropic coarse cell " << k << " is " << show(g[k]) << " instead of " << show(c) << " lines=" << show_lines(L.lines) << " f2c=" << show(x.f2c));
    sg = sg * 31 + c.size(); ++k;
  }
  // every remaining coarse cell is isotropic: the total of exported cells must match
  REQUIRE_T(x.lines.size() == k, "number of anisotropic coarse cells " << x.lines.size() << " instead of " << k);
  return k ? sg : 0;
}
FALSIFIER("C05")
