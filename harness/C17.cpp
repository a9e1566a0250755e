#include "common.h"
// C17: grouped-argument form against the long form
uint64_t run_case(uint64_t seed, uint64_t idx, Dump &dump) {
  Rng r(seed, idx);
  Mesh m = gen_mesh(r, size_for(idx));
  Opts o = gen_opts(r, m, r.p(0.6) ? 1 : 0);
  if (r.p(0.05)) o.sing = 0;
  if (r.p(0.05)) o.minc = 1;
  if (r.p(0.05)) o.fc_iter = 0;
  const int defaults = r.in(0, 4);
  if (defaults & 1) { o.ar = 0; o.sing = 1; o.fc_iter = 1; o.neigh = 0; }
  if (defaults & 2) { o.coupling = 0; o.dir = true; o.maxline = std::nullopt; }
  if (defaults == 4) { o.coupling = 0; o.dir = true; o.maxline = std::nullopt; o.build = true; o.odd = true; o.thr = 4.; }
  dump = show(m) + show(o);
  Res a; std::string ea, eb; a.f2c = {1, 2};
  Res b = a;
  a.lidx = b.lidx = o.lidx; a.lines = b.lines = o.lines;
  const auto st = static_cast<comma::CoMMASeedsPoolT>(o.seedt);
  const auto art = static_cast<comma::CoMMAAspectRatioT>(o.ar);
  const auto cpl = static_cast<comma::CoMMACellCouplingT>(o.coupling);
  const auto nt = static_cast<comma::CoMMANeighbourhoodT>(o.neigh);
  try {
    if (defaults == 3)
      comma::agglomerate_one_level<Idx, Real, Int>(m.row, m.col, m.w, m.vol, m.cen, m.prio, o.compliant, m.nbnd, o.build, o.aniso, o.odd, o.thr, st, a.f2c, a.lidx, a.lines, o.corr, m.dim, o.goal, o.minc, o.maxc);
    else
      comma::agglomerate_one_level<Idx, Real, Int>(m.row, m.col, m.w, m.vol, m.cen, m.prio, o.compliant, m.nbnd, o.build, o.aniso, o.odd, o.thr, st, a.f2c, a.lidx, a.lines, o.corr, m.dim, o.goal, o.minc, o.maxc, art, o.sing, o.maxline, cpl, o.dir, o.fc_iter, nt);
  } catch (const std::exception &e) { ea = std::string("error: ") + e.what(); }
  try {
    comma::GraphArgs<Idx, Real, Int> ga(m.row, m.col, m.w, m.vol, m.cen, m.prio, m.nbnd, m.dim);
    std::unique_ptr<comma::AgglomerationArgs<Idx, Real, Int>> aa;
    std::unique_ptr<comma::AnisotropicArgs<Idx, Real, Int>> na;
    if (defaults & 1) aa = std::make_unique<comma::AgglomerationArgs<Idx, Real, Int>>(o.goal, o.minc, o.maxc, o.corr, st);
    else aa = std::make_unique<comma::AgglomerationArgs<Idx, Real, Int>>(o.goal, o.minc, o.maxc, o.corr, st, art, o.sing, o.fc_iter, nt);
    if (defaults == 4) na = std::make_unique<comma::AnisotropicArgs<Idx, Real, Int>>(o.aniso, o.compliant);
    else if (defaults & 2) na = std::make_unique<comma::AnisotropicArgs<Idx, Real, Int>>(o.aniso, o.compliant, o.build, o.odd, o.thr);
    else na = std::make_unique<comma::AnisotropicArgs<Idx, Real, Int>>(o.aniso, o.compliant, o.build, o.odd, o.thr, o.maxline, cpl, o.dir);
    comma::agglomerate_one_level<Idx, Real, Int>(ga, *aa, *na, b.f2c, b.lidx, b.lines);
  } catch (const std::exception &e) { eb = std::string("error: ") + e.what(); }
  REQUIRE_T(ea == eb, "errors differ: '" << ea << "' and '" << eb << "'");
  REQUIRE_T(a.f2c == b.f2c, "partitions differ: " << show(a.f2c) << " and " << show(b.f2c));
  REQUIRE_T(a.lidx == b.lidx && a.lines == b.lines, "lines differ: " << show(a.lidx) << show(a.lines) << " and " << show(b.lidx) << show(b.lines));
  return m.n > 3 ? 1 + defaults + 4 * o.aniso + 8 * o.build + 16 * o.corr + 32 * m.n + 4096 * o.ar + 65536 * o.fc_iter : 0;
}
FALSIFIER("C17")
