#include "common.h"
// C19: records of the coarse cell container
struct Probe : Container_t {  // gives access to the protected records
  using Container_t::Container_t;
  std::deque<Idx> singular() const { return this->_singular_cc; }
};
static void check(const Mesh &m, const Probe &C, const std::set<Idx> &pending, bool after_corr, const std::string &S) {
  std::map<Idx, std::set<Idx>> by;
  Idx count = 0;
  for (int c = 0; c < m.n; ++c) {
    if (C._fc_2_cc[c]) { by[*C._fc_2_cc[c]].insert(c); REQUIRE_T(C._is_fc_agglomerated[c], "cell " << c << " has a coarse number but is not marked" << S); }
    else REQUIRE_T(!C._is_fc_agglomerated[c] || pending.count(c), "cell " << c << " is marked but has no coarse number" << S);
    if (pending.count(c)) REQUIRE_T(C._is_fc_agglomerated[c], "pending cell " << c << " is not marked" << S);
    count += C._is_fc_agglomerated[c];
  }
  REQUIRE_T(C.get_number_of_fc_agglomerated() == count, "count of agglomerated cells " << C.get_number_of_fc_agglomerated() << " instead of " << count << S);
  REQUIRE_T(C._ccs.size() == by.size(), "number of coarse cells " << C._ccs.size() << " but " << by.size() << " numbers are used" << S);
  REQUIRE_T(C.get_nb_of_cc() == by.size(), "recorded number of coarse cells " << C.get_nb_of_cc() << " instead of " << by.size() << S);
  Idx e = 0; std::deque<Idx> sing;
  for (auto &[id, c] : C._ccs) {
    REQUIRE_T(id == e, "coarse number " << e << " skipped" << S); ++e;
    REQUIRE_T(c->_idx == id, "coarse cell " << id << " believes to be " << c->_idx << S);
    std::set<Idx> s(c->_s_fc.begin(), c->_s_fc.end());
    REQUIRE_T(s == by[id], "coarse cell " << id << " lists " << show(VI(s.begin(), s.end())) << " but is named by " << show(VI(by[id].begin(), by[id].end())) << S);
    REQUIRE_T(c->_cardinality == static_cast<int>(s.size()), "coarse cell " << id << " records size " << c->_cardinality << S);
    if (c->_is_isotropic && c->_cardinality <= C._sing_card_thresh) sing.push_back(id);
  }
  if (!after_corr) REQUIRE_T(C.singular() == sing, "recorded too-small coarse cells wrong" << S);
}
uint64_t run_case(uint64_t seed, uint64_t idx, Dump &dump) {
  Rng r(seed, idx);
  Mesh m = gen_mesh(r, size_for(idx));
  auto g = make_graph(m);
  const int thr = r.in(1, 4);
  Probe C(g, thr);
  std::set<Idx> pending;
  std::vector<bool> used(m.n, false);
  std::string hist = " threshold " + std::to_string(thr);
  int left = m.n, k = 0; bool delayed_any = false;
  while (left > 0) {
    Idx s = r.in(0, m.n - 1); while (used[s]) s = (s + 1) % m.n;
    std::set<Idx> S{s}; used[s] = true;
    const int want = r.in(1, 5);
    while (static_cast<int>(S.size()) < want) {
      VI c; for (Idx a : S) for (Idx e = m.row[a]; e < m.row[a + 1]; ++e) if (!used[m.col[e]]) c.push_back(m.col[e]);
      if (c.empty()) break;
      Idx x = c[r.in(0, static_cast<int>(c.size()) - 1)]; used[x] = true; S.insert(x);
    }
    left -= static_cast<int>(S.size());
    const bool an = r.p(0.25), de = !an && r.p(0.2);
    hist += std::string(an ? " A" : (de ? " D" : " I")) + show(VI(S.begin(), S.end()));
    dump = show(m) + hist + "\n";
    const Idx id = C.create_cc(std::unordered_set<Idx>(S.begin(), S.end()), an ? 1 : min_compact(m, S), an, de);
    if (de) { pending.insert(S.begin(), S.end()); delayed_any = true; }
    else for (Idx c : S) REQUIRE_T(C._fc_2_cc[c] == id, "returned number " << id << " is not the one recorded;" << hist);
    check(m, C, pending, false, hist);
    ++k;
  }
  C.cc_create_all_delayed_cc();
  hist += " create-delayed"; dump = show(m) + hist + "\n";
  check(m, C, {}, false, hist);
  if (r.p(0.8)) { hist += " correct"; dump = show(m) + hist + "\n"; C.correct(r.in(4, 8)); check(m, C, {}, true, hist); }
  return k > 1 ? 1 + delayed_any + 2 * C._ccs.size() + 256 * k : 0;
}
FALSIFIER("C19")
