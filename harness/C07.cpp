#include "common.h"
// C07: seeds pools against a reference built from the statement
uint64_t run_case(uint64_t seed, uint64_t idx, Dump &dump) {
  Rng r(seed, idx);
  Mesh m = gen_mesh(r, size_for(idx));
  clamp_bnd(m);
  const bool bnd_mode = r.p(0.6), one = r.p(0.5);
  dump = show(m) + (bnd_mode ? "boundary" : "neighbourhood") + (one ? " one-point" : " full") + "\n";
  std::unique_ptr<Pool_t> pool;
  if (bnd_mode) pool = std::make_unique<comma::Seeds_Pool_Boundary_Priority<Idx, Real, Int>>(m.nbnd, m.prio, one);
  else pool = std::make_unique<comma::Seeds_Pool_Neighbourhood_Priority<Idx, Real, Int>>(m.nbnd, m.prio, one);
  std::vector<bool> aggl(m.n, false);
  std::vector<std::vector<Idx>> q(4);  // queued, per level, in order
  const auto rank = [&](Idx a, Idx b) { return ranks_before(m.prio[a], a, m.prio[b], b); };
  const auto best_of = [&](int lvl) {
    std::optional<Idx> b;
    for (Idx c = 0; c < static_cast<Idx>(m.n); ++c) if (!aggl[c] && m.nbnd[c] == lvl && (!b || rank(c, *b))) b = c;
    return b;
  };
  int top = *std::max_element(m.nbnd.begin(), m.nbnd.end());
  pool->initialize();
  {
    VI v; for (Idx c = 0; c < static_cast<Idx>(m.n); ++c) if (m.nbnd[c] == top) v.push_back(c);
    std::sort(v.begin(), v.end(), rank);
    if (one) v.resize(1);
    q[top] = v;
  }
  int nleft = m.n, steps = 0;
  uint64_t sg = 1;
  std::string hist;
  while (true) {
    const auto got = pool->choose_new_seed(aggl);
    hist += " choose->" + (got ? std::to_string(*got) : "none");
    std::string S = " history:" + hist;
    if (nleft == 0) { REQUIRE_T(!got, "a seed is returned although every cell is agglomerated" << S); break; }
    REQUIRE_T(got.has_value(), "no seed returned although free cells remain" << S);
    REQUIRE_T(*got < static_cast<Idx>(m.n) && !aggl[*got], "returned seed " << *got << " is agglomerated or no cell" << S);
    int mx = -1;
    for (int c = 0; c < m.n; ++c) if (!aggl[c]) mx = std::max(mx, m.nbnd[c]);
    const auto first_free = [&](int l) -> std::optional<Idx> { for (Idx c : q[l]) if (!aggl[c]) return c; return std::nullopt; };
    if (bnd_mode) {
      REQUIRE_T(m.nbnd[*got] == mx, "seed " << *got << " has " << m.nbnd[*got] << " boundary faces, the maximum is " << mx << S);
      auto e = first_free(mx);
      if (!e) { e = best_of(mx); sg |= 2;
        VI v; for (Idx c = 0; c < static_cast<Idx>(m.n); ++c) if (!aggl[c] && m.nbnd[c] == mx) v.push_back(c);
        std::sort(v.begin(), v.end(), rank); q[mx].insert(q[mx].end(), v.begin(), v.end());
      } else sg |= 4;
      REQUIRE_T(*got == *e, "seed " << *got << " instead of " << *e << S);
    } else {
      std::optional<Idx> e; int l = top;
      for (; l >= 0; --l) if ((e = first_free(l))) break;
      if (e) { REQUIRE_T(*got == *e, "seed " << *got << " although queued " << *e << " comes first" << S); top = l; sg |= 8; }
      else {
        const int lvl = m.nbnd[*got];
        REQUIRE_T(lvl >= std::min(top, mx), "seed " << *got << " has too few boundary faces" << S);
        REQUIRE_T(*got == *best_of(lvl), "seed " << *got << " is not the best of its level" << S);
        top = lvl; sg |= 16;
        VI v; for (Idx c = 0; c < static_cast<Idx>(m.n); ++c) if (!aggl[c] && m.nbnd[c] == lvl) v.push_back(c);
        std::sort(v.begin(), v.end(), rank); q[lvl].insert(q[lvl].end(), v.begin(), v.end());
      }
    }
    // a chosen seed leaves the front of its queue together with agglomerated ones
    // agglomerate it and some cells around
    std::vector<Idx> grp{*got}; aggl[*got] = true; --nleft;
    const int extra = r.in(0, 4);
    for (int t = 0; t < extra; ++t) {
      VI c; for (Idx a : grp) for (Idx k = m.row[a]; k < m.row[a + 1]; ++k) if (!aggl[m.col[k]]) c.push_back(m.col[k]);
      if (c.empty()) break;
      Idx x = c[r.in(0, static_cast<int>(c.size()) - 1)];
      aggl[x] = true; --nleft; grp.push_back(x);
    }
    hist += " agglomerate" + show(grp);
    if (r.p(0.85)) {
      std::unordered_set<Idx> ns;
      for (Idx a : grp) for (Idx k = m.row[a]; k < m.row[a + 1]; ++k) if (!aggl[m.col[k]] && r.p(0.9)) ns.insert(m.col[k]);
      VI v(ns.begin(), ns.end());
      if (r.p(0.6)) {
        pool->order_new_seeds_and_update(ns);
        std::sort(v.begin(), v.end(), [&](Idx a, Idx b) { return m.nbnd[a] != m.nbnd[b] ? m.nbnd[a] > m.nbnd[b] : rank(a, b); });
        hist += " order_update" + show(v);
      } else {
        r.shuffle(v);
        pool->update(std::deque<Idx>(v.begin(), v.end()));
        hist += " update" + show(v);
      }
      for (Idx c : v) { const int l = bnd_mode ? m.nbnd[c] : std::min(m.nbnd[c], top); q[l].push_back(c); }
    }
    if (++steps > 500) break;
  }
  return m.n > 2 ? sg + 32 * std::min(steps, 60) + 4096 * bnd_mode + 8192 * one : 0;
}
FALSIFIER("C07")
