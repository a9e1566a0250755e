#include "common.h"
#include "lines.h"
// C06: exported coarse lines
uint64_t run_case(uint64_t seed, uint64_t idx, Dump &dump) {
  Rng r(seed, idx);
  Mesh m = gen_mesh(r, size_for(idx));
  Opts o = gen_opts(r, m, 1);
  dump = show(m) + show(o);
  Lines L = fine_lines(m, o);
  Res x = run(m, o);
  std::string S = " idx=" + show(x.lidx) + " lines=" + show(x.lines) + " fine=" + show_lines(L.lines) + " f2c=" + show(x.f2c);
  if (!L.on) { REQUIRE_T(x.lidx == o.lidx && x.lines == o.lines, "line arrays changed although anisotropy is off" << S); return 0; }
  if (L.lines.empty()) { REQUIRE_T(x.lidx.empty() && x.lines.empty(), "line arrays not empty although there is no line" << S); return 2; }
  auto ref = cut_all(m, o, L.lines);
  REQUIRE_T(x.lidx.size() == ref.size() + 1, "wrong number of exported lines" << S);
  REQUIRE_T(x.lidx[0] == 0 && x.lidx.back() == x.lines.size(), "offsets do not start at 0 or end at the number of cells" << S);
  uint64_t sg = 7;
  for (size_t i = 0; i < ref.size(); ++i) {
    REQUIRE_T(x.lidx[i] <= x.lidx[i + 1] && x.lidx[i + 1] <= x.lines.size(), "offsets decrease" << S);
    REQUIRE_T(x.lidx[i + 1] - x.lidx[i] == ref[i].size(), "exported line " << i << " has the wrong length" << S);
    for (size_t k = 0; k < ref[i].size(); ++k) {
      const Idx cc = x.lines[x.lidx[i] + k];
      VI mem; for (Idx c = 0; c < x.f2c.size(); ++c) if (x.f2c[c] == cc) mem.push_back(c);
      VI e(ref[i][k]); std::sort(e.begin(), e.end());
      REQUIRE_T(mem == e, "exported line " << i << " entry " << k << " is coarse cell " << cc << " holding " << show(mem) << " instead of " << show(e) << S);
    }
    sg = sg * 17 + ref[i].size();
  }
  return sg;
}
FALSIFIER("C06")
