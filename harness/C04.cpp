#include "common.h"
// C04: effect of the correction step
uint64_t run_case(uint64_t seed, uint64_t idx, Dump &dump) {
  Rng r(seed, idx);
  Mesh m = gen_mesh(r, size_for(idx));
  Opts o = gen_opts(r, m);
  if (r.p(0.5)) { o.minc = r.in(2, 6); o.goal = o.minc + r.in(0, 2); o.maxc = o.goal + r.in(0, 2); o.sing = r.in(1, o.minc + 1); }
  dump = show(m) + show(o);
  o.corr = false;
  Res a = run(m, o);
  o.corr = true;
  Res b = run(m, o);
  const bool on = o.aniso && (o.build || (o.lidx.size() >= 2 && !o.lines.empty()));
  const size_t n_aniso = on ? a.lines.size() : 0;
  const size_t thr = o.sing >= o.minc ? o.minc - 1 : o.sing;
  auto ga = groups(a.f2c), gb = groups(b.f2c);
  std::string S = " before=" + show(a.f2c) + " after=" + show(b.f2c);
  REQUIRE_T(a.lines == b.lines && a.lidx == b.lidx, "lines differ with correction" << S);
  bool any = false;
  for (size_t i = 0; i < ga.size(); ++i) {
    if (i < n_aniso) { REQUIRE_T(gb.size() > i && ga[i] == gb[i], "anisotropic coarse cell " << i << " changed" << S); continue; }
    if (ga[i].size() <= thr) { any = true; continue; }
    for (Idx c : ga[i]) REQUIRE_T(b.f2c[c] == b.f2c[ga[i][0]], "coarse cell " << i << " above the threshold was split" << S);
  }
  if (!any) REQUIRE_T(a.f2c == b.f2c, "nothing to correct but the partition changed" << S);
  // surviving coarse cells keep their order: the number before of a survivor is
  // that of the original coarse cell it grew from
  std::vector<std::optional<size_t>> origin(gb.size());
  for (size_t j = 0; j < gb.size(); ++j) {
    REQUIRE_T(!gb[j].empty(), "number " << j << " skipped" << S);
    std::set<size_t> big, all;
    for (Idx c : gb[j]) { all.insert(a.f2c[c]); if (ga[a.f2c[c]].size() > thr || a.f2c[c] < n_aniso) big.insert(a.f2c[c]); }
    REQUIRE_T(big.size() <= 1, "two coarse cells above the threshold were merged" << S);
    if (big.size() == 1) origin[j] = *big.begin();
    else if (all.size() == 1) origin[j] = *all.begin();
  }
  std::optional<size_t> last;
  for (size_t j = 0; j < gb.size(); ++j) if (origin[j]) {
    REQUIRE_T(!last || *last < *origin[j], "relative order not kept" << S);
    last = origin[j];
  }
  for (size_t j = n_aniso; j < gb.size(); ++j) if (gb[j].size() <= thr)
    for (Idx c : gb[j]) for (Idx k = m.row[c]; k < m.row[c + 1]; ++k) {
      Idx q = b.f2c[m.col[k]];
      REQUIRE_T(q == j || q < n_aniso, "too-small coarse cell " << j << " remains next to the isotropic coarse cell " << q << S);
    }
  return any ? 1 + ga.size() * 64 + gb.size() * 8192 + thr * 1048576 : 0;
}
FALSIFIER("C04")
