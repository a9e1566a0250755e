#include "common.h"
// C11: candidate lists
uint64_t run_case(uint64_t seed, uint64_t idx, Dump &dump) {
  Rng r(seed, idx);
  Mesh m = gen_mesh(r, size_for(idx));
  const bool ext = r.p(0.5);
  std::unordered_set<Idx> allowed;
  const double q = r.p(0.4) ? 1.0 : r.unit();
  for (int i = 0; i < m.n; ++i) if (r.p(q)) allowed.insert(i);
  Idx s = r.in(0, m.n - 1);
  std::set<Idx> al(allowed.begin(), allowed.end());
  dump = show(m) + (ext ? "extended" : "pure front") + " allowed=" + show(VI(al.begin(), al.end())) + " seed=" + std::to_string(s) + "\n";
  std::shared_ptr<comma::Neighbourhood<Idx, Real, Int>> nb;
  std::shared_ptr<comma::NeighbourhoodCreator<Idx, Real, Int>> cr;
  if (ext) cr = std::make_shared<comma::NeighbourhoodExtendedCreator<Idx, Real, Int>>();
  else cr = std::make_shared<comma::NeighbourhoodPureFrontCreator<Idx, Real, Int>>();
  nb = cr->create(allowed, m.prio, m.dim);
  std::vector<Idx> added;
  std::vector<Idx> list;  // reference for extended
  std::deque<std::vector<Idx>> fronts;  // newest first
  Idx cur = s;
  const int steps = r.in(1, 12);
  std::string hist;
  const auto rank = [&](Idx a, Idx b) { return ranks_before(m.prio[a], a, m.prio[b], b); };
  uint64_t sg = ext;
  for (int t = 0; t < steps; ++t) {
    if (r.p(0.1)) nb = cr->clone(nb);
    VI neighs(m.col.begin() + m.row[cur], m.col.begin() + m.row[cur + 1]);
    nb->update(cur, neighs);
    added.push_back(cur);
    hist += " +" + std::to_string(cur);
    VI got(nb->get_candidates().begin(), nb->get_candidates().end());
    std::string S = " after" + hist + ": " + show(got);
    const auto in = [](const VI &v, Idx x) { return std::find(v.begin(), v.end(), x) != v.end(); };
    VI fresh;
    for (Idx c : neighs) if (!in(added, c) && allowed.count(c)) fresh.push_back(c);
    std::sort(fresh.begin(), fresh.end(), rank);
    if (ext) {
      list.erase(std::remove(list.begin(), list.end(), cur), list.end());
      const VI old = list;
      for (Idx c : fresh) if (!in(old, c)) list.push_back(c);
      REQUIRE_T(got == list, "candidates differ from " << show(list) << S);
    } else {
      for (auto &f : fronts) f.erase(std::remove(f.begin(), f.end(), cur), f.end());
      fronts.push_front(fresh);
      std::set<Idx> elig;
      for (Idx a : added) for (Idx k = m.row[a]; k < m.row[a + 1]; ++k) if (allowed.count(m.col[k]) && !in(added, m.col[k])) elig.insert(m.col[k]);
      REQUIRE_T(got.empty() == elig.empty(), "candidates " << (got.empty() ? "missing" : "listed") << " although eligible cells " << (elig.empty() ? "do not exist" : "exist") << S);
      for (Idx c : got) REQUIRE_T(elig.count(c), "candidate " << c << " is not an eligible neighbour" << S);
      for (size_t i = 0; i + 1 < got.size(); ++i) REQUIRE_T(rank(got[i], got[i + 1]), "candidates out of order or repeated" << S);
      // the newest front has priority; with few additions all fronts are merged
      VI exp;
      if (static_cast<int>(fronts.size()) <= m.dim) {
        std::set<Idx> u; for (auto &f : fronts) u.insert(f.begin(), f.end());
        exp.assign(u.begin(), u.end()); std::sort(exp.begin(), exp.end(), rank);
        REQUIRE_T(got == exp, "candidates differ from the merged fronts " << show(exp) << S);
      } else if (!fronts.front().empty()) {
        REQUIRE_T(got == fronts.front(), "candidates differ from the front of the last added cell " << show(fronts.front()) << S);
      }
    }
    sg = sg * 5 + got.size();
    VI pick = got;
    if (pick.empty()) break;
    cur = r.p(0.7) ? pick[r.in(0, static_cast<int>(pick.size()) - 1)] : pick[0];
  }
  return added.size() > 1 ? sg : 0;
}
FALSIFIER("C11")
