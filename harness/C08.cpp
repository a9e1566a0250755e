#include "common.h"
// C08: argument validation
uint64_t run_case(uint64_t seed, uint64_t idx, Dump &dump) {
  Rng r(seed, idx);
  Mesh m = gen_mesh(r, 8);
  Opts o = gen_opts(r, m);
  o.fc_iter = r.p(0.5) ? 1 : 2;
  // mutate up to two arguments
  const int nm = r.in(0, 2);
  Mesh mm = m;
  uint64_t sg = 1;
  for (int t = 0; t < nm; ++t) {
    const int k = r.in(0, 13); sg = sg * 16 + k;
    switch (k) {
      case 0: mm.dim = r.in(-1, 5); break;
      case 1: o.minc = r.in(-2, 4); break;
      case 2: o.goal = r.in(-2, 9); break;
      case 3: o.maxc = r.in(-2, 9); break;
      case 4: o.fc_iter = r.p(0.5) ? r.in(-1, 1) : r.in(comma::iter_agglo_max_iter, comma::iter_agglo_max_iter + 3); break;
      case 5: mm.row.clear(); break;
      case 6: if (!mm.row.empty()) mm.row.back() += 1; break;
      case 7: mm.w.push_back(1.0); break;
      case 8: mm.col.push_back(0); break;
      case 9: o.sing = r.in(-2, 3); break;
      case 10: o.seedt = r.in(-1, 12); break;
      case 11: o.ar = r.in(-1, 11); break;
      case 12: if (o.lidx.size() > 1) o.lidx.back() += r.p(0.5) ? 1 : static_cast<Idx>(-1); break;
      case 13: if (!o.lines.empty()) { if (r.p(0.5)) o.lines.push_back(0); else o.lines.pop_back(); } break;
    }
  }
  bool bad = false;
  if (mm.dim != 2 && mm.dim != 3) bad = true;
  if (o.minc <= 1 || o.goal <= 1 || o.maxc <= 1) bad = true;
  if (!(o.minc <= o.goal && o.goal <= o.maxc)) bad = true;
  if (o.fc_iter < 1 || o.fc_iter > comma::iter_agglo_max_iter) bad = true;
  if (mm.row.empty() || mm.row.back() != mm.col.size() || mm.row.back() != mm.w.size()) bad = true;
  if (o.aniso && !o.build && o.lidx.size() >= 2 && !o.lines.empty() && o.lidx.back() != o.lines.size()) bad = true;
  if (o.sing <= 0) bad = true;
  if (o.seedt != 0 && o.seedt != 1 && o.seedt != 10 && o.seedt != 11) bad = true;
  if (o.ar < 0 || o.ar > 9) bad = true;
  // The centres have the dimension of the mesh: a legal but different dimension
  // is fine for the library, it only changes formulas
  if (!bad && (mm.row != m.row || mm.col != m.col || mm.w != m.w)) return 0;
  if (!bad && o.lines.size() && o.aniso && !o.build) {
    // only well-formed lines are valid input
    std::set<Idx> s(o.lines.begin(), o.lines.end());
    if (s.size() != o.lines.size()) return 0;
    for (size_t i = 0; i + 1 < o.lidx.size(); ++i) if (o.lidx[i] > o.lidx[i + 1]) return 0;
  }
  dump = show(mm) + show(o);
  Res x; x.f2c = {7, 8, 9}; x.lidx = o.lidx; x.lines = o.lines;
  bool thrown = false; std::string what;
  try {
    comma::agglomerate_one_level<Idx, Real, Int>(
      mm.row, mm.col, mm.w, mm.vol, mm.cen, mm.prio, o.compliant, mm.nbnd, o.build, o.aniso, o.odd, o.thr,
      static_cast<comma::CoMMASeedsPoolT>(o.seedt), x.f2c, x.lidx, x.lines, o.corr, mm.dim, o.goal, o.minc, o.maxc,
      static_cast<comma::CoMMAAspectRatioT>(o.ar), o.sing, o.maxline, static_cast<comma::CoMMACellCouplingT>(o.coupling),
      o.dir, o.fc_iter, static_cast<comma::CoMMANeighbourhoodT>(o.neigh));
  } catch (const std::invalid_argument &e) { thrown = true; what = e.what(); }
  REQUIRE_T(thrown == bad, (bad ? "inadmissible arguments accepted" : "admissible arguments rejected: ") << what);
  if (bad) REQUIRE_T((x.f2c == VI{7, 8, 9}), "fine-to-coarse output changed although an error was thrown");
  return bad ? sg : 0;
}
FALSIFIER("C08")
