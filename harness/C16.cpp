#include "common.h"
// C16: ordering predicates
uint64_t run_case(uint64_t seed, uint64_t idx, Dump &dump) {
  using P = std::pair<Idx, Real>;
  Rng r(seed, idx);
  const double vals[8] = {0.0, 1.0, -1.0, 0.5, 1e300, -1e300, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()};
  P p[3];
  for (auto &x : p) x = {static_cast<Idx>(r.in(0, 3)), r.p(0.8) ? vals[r.in(0, 7)] : r.unit()};
  // values that differ by very little, and far indices
  for (int i = 1; i < 3; ++i) if (r.p(0.2)) p[i].second = p[i - 1].second + std::ldexp(r.p(0.5) ? 1. : -1., -r.in(1, 60));
  for (auto &x : p) if (r.p(0.1)) x.first += Idx{1} << r.in(3, 62);
  std::ostringstream s; s.precision(17); for (auto &x : p) s << "(" << x.first << "," << x.second << ") ";
  dump = s.str();
  comma::CustomPairLessFunctor<P> L; comma::CustomPairGreaterFunctor<P> G; comma::PairSecondBasedLessFunctor<P> B;
  const auto gt = [](const P &a, const P &b) { return a.second > b.second || (a.second == b.second && a.first < b.first); };
  for (auto &a : p) for (auto &b : p) {
    REQUIRE_T(G(a, b) == gt(a, b), "greater-first predicate wrong: " << s.str());
    REQUIRE_T(L(a, b) == gt(b, a), "less-first predicate wrong: " << s.str());
    REQUIRE_T(B(a, b) == (a.second < b.second), "second-based predicate wrong: " << s.str());
    REQUIRE_T(!(G(a, b) && G(b, a)) && !(L(a, b) && L(b, a)), "not asymmetric: " << s.str());
    if (a != b) REQUIRE_T(G(a, b) != G(b, a) && L(a, b) != L(b, a), "not total: " << s.str());
    for (auto &c : p) {
      REQUIRE_T(!(G(a, b) && G(b, c)) || G(a, c), "not transitive: " << s.str());
      REQUIRE_T(!(L(a, b) && L(b, c)) || L(a, c), "not transitive: " << s.str());
    }
  }
  comma::PairFindFirstBasedFunctor<P> F(p[0].first);
  for (auto &a : p) REQUIRE_T(F(a) == (a.first == p[0].first), "find-by-index predicate wrong: " << s.str());
  return 1 + (p[0].first & 7) + 8 * (p[1].first & 7) + 64 * (p[2].first & 7) + 512 * gt(p[0], p[1]) + 1024 * gt(p[1], p[2]);
}
FALSIFIER("C16")
