#ifndef VERIF_LINES_H
#define VERIF_LINES_H
#include "common.h"
struct Lines { bool on = false; std::vector<VI> lines; };
inline std::string show_lines(const std::vector<VI> &l) { std::string s = "{"; for (auto &x : l) s += show(x); return s + "}"; }
// The fine lines of at least two cells: given by the caller, or those built by the library
inline Lines fine_lines(const Mesh &m, const Opts &o) {
  Lines L;
  if (!o.aniso) return L;
  if (o.build) {
    L.on = true;
    Internal I(m, o);
    I.aniso(o);
    if (I.ani->_should_agglomerate) for (auto &p : I.ani->_v_lines[0]) if (p->size() > 1) L.lines.emplace_back(p->begin(), p->end());
  } else if (o.lidx.size() >= 2 && !o.lines.empty()) {
    L.on = true;
    for (size_t i = 0; i + 1 < o.lidx.size(); ++i) if (o.lidx[i + 1] - o.lidx[i] > 1) L.lines.emplace_back(o.lines.begin() + o.lidx[i], o.lines.begin() + o.lidx[i + 1]);
  }
  return L;
}
// Reference cut: pairs from the preferred end, a final triple if allowed
inline std::vector<VI> cut(const Mesh &m, const Opts &o, VI line) {
  const Idx f = line.front(), b = line.back();
  const int bf = std::min<int>(m.nbnd[f], m.dim), bb = std::min<int>(m.nbnd[b], m.dim);
  const bool fwd = bf > bb || (bf == bb && ranks_before(m.prio[f], f, m.prio[b], b));
  if (!fwd) std::reverse(line.begin(), line.end());
  size_t K = line.size();
  // a limit of zero counts as no limit only when lines are built by the library
  if (o.maxline && !(o.build && *o.maxline == 0)) K = std::min<size_t>(K, *o.maxline);
  std::vector<VI> out;
  size_t i = 0;
  while (i + 2 <= K) {
    if (K - i == 3 && o.odd) { out.push_back({line[i], line[i + 1], line[i + 2]}); i += 3; }
    else { out.push_back({line[i], line[i + 1]}); i += 2; }
  }
  return out;
}
inline std::vector<std::vector<VI>> cut_all(const Mesh &m, const Opts &o, const std::vector<VI> &ls) {
  std::vector<std::vector<VI>> r;
  for (auto &l : ls) r.push_back(cut(m, o, l));
  return r;
}
#endif
