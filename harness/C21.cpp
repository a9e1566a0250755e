#include "common.h"
#include "lines.h"
// C21: lines built by the library
uint64_t run_case(uint64_t seed, uint64_t idx, Dump &dump) {
  Rng r(seed, idx);
  Mesh m = gen_mesh(r, size_for(idx));
  Opts o = gen_opts(r, m, 1);
  o.build = true; o.lidx.clear(); o.lines.clear();
  dump = show(m) + show(o);
  Lines L = fine_lines(m, o);
  double thr = o.thr; if (thr >= 0 && thr <= 1) thr = 1 / thr;
  std::vector<bool> tag(m.n, false), used(m.n, false);
  const auto cpl = [&](Idx c, Idx k) {
    if (o.coupling == 0) return m.w[k];
    double d = 0; for (int i = 0; i < m.dim; ++i) d += (m.cen[c][i] - m.cen[m.col[k]][i]) * (m.cen[c][i] - m.cen[m.col[k]][i]);
    return 1 / d;
  };
  VR ref(m.n, 0.0);
  for (int c = 0; c < m.n; ++c) for (Idx k = m.row[c]; k < m.row[c + 1]; ++k) ref[c] = std::max(ref[c], cpl(c, k));
  for (Idx c : o.compliant) {
    double mx = 0, mn = std::numeric_limits<double>::max();
    for (Idx k = m.row[c]; k < m.row[c + 1]; ++k) { mx = std::max(mx, m.w[k]); mn = std::min(mn, m.w[k]); }
    tag[c] = thr < 0 || (m.dim == 2 ? mx / mn : std::sqrt(mx / mn)) >= thr;
  }
  const auto strong = [&](Idx a, Idx b) {
    for (Idx k = m.row[a]; k < m.row[a + 1]; ++k) if (m.col[k] == b) return cpl(a, k) > 0.90 * ref[a];
    return false;
  };
  const auto dir = [&](Idx a, Idx b) { VR d(m.dim); double n = 0; for (int i = 0; i < m.dim; ++i) { d[i] = m.cen[b][i] - m.cen[a][i]; n += d[i] * d[i]; } n = std::sqrt(n); for (auto &x : d) x /= n; return d; };
  const auto straight = [&](Idx a, Idx b, Idx c) { VR u = dir(a, b), v = dir(b, c); double d = 0; for (int i = 0; i < m.dim; ++i) d += u[i] * v[i]; return d > 0 && d >= comma::deviate_thresh - 1e-9; };
  std::string S = " lines=" + show_lines(L.lines);
  uint64_t sg = 1;
  for (auto &l : L.lines) {
    REQUIRE_T(l.size() > 1, "line of less than two cells" << S);
    for (Idx c : l) { REQUIRE_T(c < static_cast<Idx>(m.n) && tag[c], "cell " << c << " of a line is not tagged" << S); REQUIRE_T(!used[c], "cell " << c << " is used twice" << S); used[c] = true; }
    for (size_t i = 0; i + 1 < l.size(); ++i) {
      const Idx a = l[i], b = l[i + 1];
      REQUIRE_T(m.adj(a, b), "consecutive cells " << a << "," << b << " are not adjacent" << S);
      bool ok = strong(a, b) || strong(b, a);
      if (!ok && o.dir) ok = (i > 0 && straight(l[i - 1], a, b)) || (i + 2 < l.size() && straight(l[i + 2], b, a));
      REQUIRE_T(ok, "link " << a << "," << b << " is neither strong nor straight ahead" << S);
    }
    if (o.dir && l.size() > 2) {
      // all but at most one turn are straight: growth goes straight from the first link in both directions
      int bent = 0; for (size_t i = 0; i + 2 < l.size(); ++i) bent += !straight(l[i], l[i + 1], l[i + 2]);
      REQUIRE_T(bent == 0, "line with forced direction bends" << S);
    }
    sg = sg * 31 + l.size();
  }
  return L.lines.empty() ? 0 : sg;
}
FALSIFIER("C21")
