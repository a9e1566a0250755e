#include "common.h"
// C09: neighbourhood of seeds = breadth-first ball of free cells
uint64_t run_case(uint64_t seed, uint64_t idx, Dump &dump) {
  Rng r(seed, idx);
  Mesh m = gen_mesh(r, size_for(idx));
  auto g = make_graph(m);
  std::vector<bool> aggl(m.n, false);
  const double pa = r.unit() * 0.6;
  for (int i = 0; i < m.n; ++i) aggl[i] = r.p(pa);
  std::unordered_set<Idx> seeds;
  const int ns = r.in(1, 3);
  for (int i = 0; i < ns; ++i) seeds.insert(r.in(0, m.n - 1));
  const int order0 = r.in(1, 5), maxc = r.in(2, 14);
  VI sv(seeds.begin(), seeds.end()); std::sort(sv.begin(), sv.end());
  std::vector<int> av(aggl.begin(), aggl.end());
  dump = show(m) + "seeds=" + show(sv) + " agglomerated=" + show(av) + " order=" + std::to_string(order0) + " max_card=" + std::to_string(maxc) + "\n";
  int order = order0;
  std::unordered_map<Idx, Int> d;
  g->compute_neighbourhood_of_cc(seeds, order, d, maxc, aggl);
  // reference distances through free cells
  std::vector<int> dist(m.n, -1);
  std::deque<Idx> q;
  for (Idx s : seeds) { dist[s] = 0; q.push_back(s); }
  while (!q.empty()) {
    Idx c = q.front(); q.pop_front();
    for (Idx k = m.row[c]; k < m.row[c + 1]; ++k) if (dist[m.col[k]] < 0 && !aggl[m.col[k]]) { dist[m.col[k]] = dist[c] + 1; q.push_back(m.col[k]); }
  }
  const auto count = [&](int K) { int c = 0; for (int x : dist) c += x >= 0 && x <= K; return c; };
  const int ecc = *std::max_element(dist.begin(), dist.end());
  int K = order0;
  while (K < ecc && count(K) < maxc) ++K;
  std::string S; for (auto &[c, x] : d) S += " " + std::to_string(c) + ":" + std::to_string(x);
  for (int c = 0; c < m.n; ++c) {
    const bool want = dist[c] >= 1 && dist[c] <= K;
    REQUIRE_T(want == (d.count(c) > 0), "cell " << c << " at distance " << dist[c] << (want ? " is missing" : " should not be listed") << " (order " << K << ");" << S);
    if (want) REQUIRE_T(d.at(c) == dist[c], "cell " << c << " has distance " << d.at(c) << " instead of " << dist[c]);
  }
  // first-order neighbourhood
  auto f = g->get_neighbourhood_of_cc(seeds, aggl);
  for (int c = 0; c < m.n; ++c) REQUIRE_T((dist[c] == 1) == (f.count(c) > 0), "first neighbourhood wrong at cell " << c);
  return d.size() > 1 ? d.size() + 128 * K + 4096 * order0 + 65536 * maxc : 0;
}
FALSIFIER("C09")
