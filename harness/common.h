// Input generators, reference oracles and the fork-per-worker runner shared by
// all falsifiers. Standard headers come first; the library comes last so that
// its own includes are already satisfied.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#include "CoMMA/CoMMA.h"

using Idx = unsigned long;
using Real = double;
using Int = int;
using VI = std::vector<Idx>;
using VR = std::vector<Real>;
using Graph_t = comma::Dual_Graph<Idx, Real, Int>;
using Container_t = comma::Coarse_Cell_Container<Idx, Real, Int>;
using Pool_t = comma::Seeds_Pool<Idx, Real, Int>;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t a, uint64_t b = 0) : s(a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull) * 0xD1342543DE82EF95ull) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int in(int a, int b) { return a + static_cast<int>(next() % static_cast<uint64_t>(b - a + 1)); }
  bool p(double q) { return unit() < q; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template<class T> void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[next() % i]);
  }
};

struct Fail : std::runtime_error {
  using std::runtime_error::runtime_error;
};
#define REQUIRE_T(cond, msg)                                                  \
  do {                                                                        \
    if (!(cond)) {                                                            \
      std::ostringstream oss_;                                                \
      oss_ << msg;                                                            \
      throw Fail(oss_.str());                                                 \
    }                                                                         \
  } while (0)

struct Mesh {
  int n = 0, dim = 2;
  VI row, col;
  VR w, vol, prio;
  std::vector<VR> cen;
  std::vector<Int> nbnd;
  bool adj(Idx a, Idx b) const {
    for (Idx k = row[a]; k < row[a + 1]; ++k)
      if (col[k] == b) return true;
    return false;
  }
  int deg(Idx a) const { return static_cast<int>(row[a + 1] - row[a]); }
};

inline Mesh gen_mesh(Rng &r, int maxn) {
  Mesh m;
  m.dim = r.in(2, 3);
  std::vector<std::set<int>> A;
  std::vector<VR> C;
  auto resize = [&](int n) { A.assign(n, {}); C.assign(n, VR(m.dim, 0.0)); };
  auto link = [&](int a, int b) { if (a != b) { A[a].insert(b); A[b].insert(a); } };
  double hx = 1, hy = 1, hz = 1;
  if (r.p(0.5)) hy = r.p(0.5) ? 0.1 : 0.5;
  if (r.p(0.2)) hx = 0.01;
  const int kind = r.in(0, 9);
  bool rndcen = false;
  std::vector<std::array<int, 3>> ijk;
  if (kind <= 3) {  // grid, with or without holes
    int nx, ny, nz = 1;
    if (m.dim == 2) {
      nx = r.in(1, std::max(1, std::min(maxn, 9)));
      ny = r.in(1, std::max(1, std::min(maxn / nx, 9)));
    } else {
      nx = r.in(1, std::max(1, std::min(maxn, 5)));
      ny = r.in(1, std::max(1, std::min(maxn / nx, 5)));
      nz = r.in(1, std::max(1, std::min(maxn / (nx * ny), 4)));
    }
    std::map<std::array<int, 3>, int> id;
    const double hole = (kind == 1) ? 0.15 : (kind == 2 ? 0.4 : 0.0);
    for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i)
      if (!r.p(hole)) { int q = static_cast<int>(id.size()); id[{i, j, k}] = q; ijk.push_back({i, j, k}); }
    if (id.empty()) { id[{0, 0, 0}] = 0; ijk.push_back({0, 0, 0}); }
    resize(static_cast<int>(id.size()));
    for (auto &[p, q] : id) {
      C[q][0] = p[0] * hx; C[q][1] = p[1] * hy;
      if (m.dim == 3) C[q][2] = p[2] * hz;
      for (int d = 0; d < 3; ++d) { auto t = p; t[d]++; auto it = id.find(t); if (it != id.end()) link(q, it->second); }
    }
  } else if (kind == 4) {  // path or cycle
    int n = r.in(1, maxn); resize(n);
    for (int i = 0; i + 1 < n; ++i) link(i, i + 1);
    if (n > 2 && r.p(0.4)) link(0, n - 1);
    for (int i = 0; i < n; ++i) { C[i][0] = i * hx; C[i][1] = (i % 3) * 0.01; }
  } else if (kind == 5) {  // star(s) / caterpillar
    int n = r.in(1, maxn); resize(n);
    int hubs = r.in(1, std::max(1, n / 4));
    for (int i = hubs; i < n; ++i) link(i, r.in(0, hubs - 1));
    for (int i = 0; i + 1 < hubs; ++i) if (r.p(0.9)) link(i, i + 1);
    rndcen = true;
  } else if (kind == 6) {  // tree
    int n = r.in(1, maxn); resize(n);
    for (int i = 1; i < n; ++i) link(i, r.in(0, i - 1));
    rndcen = true;
  } else if (kind == 7) {  // small complete
    int n = r.in(1, std::min(maxn, 7)); resize(n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) link(i, j);
    rndcen = true;
  } else if (kind == 8) {  // random geometric
    int n = r.in(1, maxn); resize(n);
    for (int i = 0; i < n; ++i) for (auto &x : C[i]) x = r.unit();
    double rad = r.p(0.5) ? 1.2 / std::sqrt(n) : 1.8 / std::sqrt(n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) {
      double d = 0; for (int k = 0; k < m.dim; ++k) d += (C[i][k] - C[j][k]) * (C[i][k] - C[j][k]);
      if (d < rad * rad) link(i, j);
    }
  } else {  // random sparse, possibly disconnected
    int n = r.in(1, maxn); resize(n);
    double pe = r.unit() * 3.0 / n;
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (r.p(pe)) link(i, j);
    rndcen = true;
  }
  int n = static_cast<int>(A.size());
  if (r.p(0.15) && n < maxn) { A.push_back({}); C.push_back(VR(m.dim, 5.0)); ++n; }  // isolated
  if (rndcen) for (auto &c : C) for (auto &x : c) x = r.unit() * 4;
  else if (r.p(0.3)) for (auto &c : C) for (auto &x : c) x += 0.05 * (r.unit() - 0.5);
  // distinct centres
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (C[i] == C[j]) C[i][0] += 1e-3 * (i + 1);
  // relabel
  std::vector<int> perm(n);
  std::iota(perm.begin(), perm.end(), 0);
  if (r.p(0.6)) r.shuffle(perm);
  std::vector<std::set<int>> B(n);
  std::vector<VR> D(n);
  for (int i = 0; i < n; ++i) { for (int j : A[i]) B[perm[i]].insert(perm[j]); D[perm[i]] = C[i]; }
  m.n = n; m.cen = D;
  std::map<std::pair<int, int>, double> W;
  const int wk = r.in(0, 3);
  for (int i = 0; i < n; ++i) for (int j : B[i]) if (j < i) {
    double x = 1;
    if (wk == 1) x = r.in(1, 3);
    else if (wk == 2) x = 0.05 + r.unit();
    else if (wk == 3) {  // inverse-distance like: stretched meshes
      double d = 0; for (int k = 0; k < m.dim; ++k) d += (D[i][k] - D[j][k]) * (D[i][k] - D[j][k]);
      x = 1.0 / std::sqrt(d);
    }
    W[{i, j}] = W[{j, i}] = x;
  }
  m.row.push_back(0);
  for (int i = 0; i < n; ++i) {
    std::vector<int> nb(B[i].begin(), B[i].end());
    if (r.p(0.5)) r.shuffle(nb);
    for (int j : nb) { m.col.push_back(j); m.w.push_back(W[{i, j}]); }
    m.row.push_back(m.col.size());
  }
  const int vk = r.in(0, 2), pk = r.in(0, 5);
  const int bk = r.in(0, 3);
  for (int i = 0; i < n; ++i) {
    m.vol.push_back(vk == 0 ? 1.0 : (vk == 1 ? r.in(1, 3) : 0.1 + r.unit()));
    double p = 0;
    if (pk == 0) p = 1; else if (pk == 1) p = r.in(0, 3); else if (pk == 2) p = i; else if (pk == 3) p = r.unit();
    else if (pk == 4) p = -r.in(0, 4); else p = r.unit() * 4 - 2;
    m.prio.push_back(p);
    int b;
    if (bk == 0) b = std::max(0, 2 * m.dim - m.deg(i)); else if (bk == 1) b = 0; else if (bk == 2) b = r.in(0, 4); else b = r.p(0.2) ? r.in(1, 3) : 0;
    m.nbnd.push_back(b);
  }
  return m;
}

struct Opts {
  bool build = false, aniso = false, odd = false, corr = false, dir = true;
  double thr = 2.0;
  int seedt = 0, goal = 4, minc = 2, maxc = 6, ar = 0, sing = 1, fc_iter = 1, neigh = 0, coupling = 0;
  std::optional<Idx> maxline;
  VI compliant, lidx, lines;
};

// Random vertex-disjoint paths of the mesh graph
inline void gen_lines(Rng &r, const Mesh &m, VI &lidx, VI &lines) {
  std::vector<bool> used(m.n, false);
  lidx = {0}; lines.clear();
  int tries = r.in(1, std::max(1, m.n / 2));
  for (int t = 0; t < tries; ++t) {
    Idx s = r.in(0, m.n - 1);
    if (used[s]) continue;
    VI path{s}; used[s] = true;
    int want = r.in(1, 9);
    while (static_cast<int>(path.size()) < want) {
      VI c;
      for (Idx k = m.row[path.back()]; k < m.row[path.back() + 1]; ++k) if (!used[m.col[k]]) c.push_back(m.col[k]);
      if (c.empty()) break;
      Idx q = c[r.in(0, static_cast<int>(c.size()) - 1)];
      used[q] = true; path.push_back(q);
    }
    lines.insert(lines.end(), path.begin(), path.end());
    lidx.push_back(lines.size());
    if (r.p(0.05)) lidx.push_back(lines.size());  // empty line
  }
}

inline Opts gen_opts(Rng &r, const Mesh &m, int aniso_mode = -1 /* -1 random, 0 off, 1 on */) {
  Opts o;
  o.minc = r.in(2, 5);
  o.goal = o.minc + r.in(0, 4);
  o.maxc = o.goal + r.in(0, 5);
  static const int st[4] = {0, 1, 10, 11};
  o.seedt = st[r.in(0, 3)];
  o.ar = r.p(0.4) ? 0 : r.in(0, 9);
  o.sing = r.p(0.5) ? 1 : r.in(1, 5);
  o.fc_iter = r.p(0.7) ? 1 : r.in(1, 4);
  int mdeg = 0;
  for (int i = 0; i < m.n; ++i) mdeg = std::max(mdeg, m.deg(i));
  if (mdeg > 6 || (m.n > 30 && o.fc_iter > 3)) o.fc_iter = std::min(o.fc_iter, 2);  // the look-ahead cost is degree^iterations
  o.neigh = r.p(0.6) ? 0 : 1;
  o.corr = r.p(0.6);
  o.coupling = r.p(0.7) ? 0 : 1;
  o.dir = r.p(0.5);
  o.odd = r.p(0.5);
  if (r.p(0.4)) o.maxline = r.in(1, 7);
  o.aniso = aniso_mode < 0 ? r.p(0.45) : aniso_mode == 1;
  if (o.aniso) {
    o.build = r.p(0.5);
    static const double th[8] = {-1, 1.0, 1.5, 2.0, 4.0, 0.5, 0.25, 3.0};
    o.thr = th[r.in(0, 7)];
    const double q = r.p(0.5) ? 1.0 : r.unit();
    VI all(m.n); std::iota(all.begin(), all.end(), 0);
    r.shuffle(all);
    for (Idx c : all) if (r.p(q)) o.compliant.push_back(c);
    gen_lines(r, m, o.lidx, o.lines);
    if (o.build) { o.lidx.clear(); o.lines.clear(); }
  }
  return o;
}

struct Res { VI f2c, lidx, lines; };

inline Res run(const Mesh &m, const Opts &o) {
  Res x;
  x.lidx = o.lidx; x.lines = o.lines;
  comma::agglomerate_one_level<Idx, Real, Int>(
    m.row, m.col, m.w, m.vol, m.cen, m.prio, o.compliant, m.nbnd, o.build, o.aniso, o.odd, o.thr,
    static_cast<comma::CoMMASeedsPoolT>(o.seedt), x.f2c, x.lidx, x.lines, o.corr, m.dim, o.goal, o.minc, o.maxc,
    static_cast<comma::CoMMAAspectRatioT>(o.ar), o.sing, o.maxline, static_cast<comma::CoMMACellCouplingT>(o.coupling),
    o.dir, o.fc_iter, static_cast<comma::CoMMANeighbourhoodT>(o.neigh)
  );
  return x;
}

// Same steps as the library entry point, but keeping the internal objects
struct Internal {
  Mesh m;
  std::shared_ptr<Graph_t> g;
  std::shared_ptr<Pool_t> pool;
  std::shared_ptr<Container_t> cc;
  std::unique_ptr<comma::Agglomerator_Anisotropic<Idx, Real, Int>> ani;
  std::unique_ptr<comma::Agglomerator_Isotropic<Idx, Real, Int>> iso;
  Internal(const Mesh &mesh, const Opts &o) : m(mesh) {
    for (auto &b : m.nbnd) b = std::min<int>(b, m.dim);
    if (o.seedt % 10 == 0) pool = std::make_shared<comma::Seeds_Pool_Boundary_Priority<Idx, Real, Int>>(m.nbnd, m.prio, o.seedt >= 10);
    else pool = std::make_shared<comma::Seeds_Pool_Neighbourhood_Priority<Idx, Real, Int>>(m.nbnd, m.prio, o.seedt >= 10);
    g = std::make_shared<Graph_t>(m.n, m.row, m.col, m.w, m.vol, m.cen, m.nbnd, m.dim, o.compliant);
    cc = std::make_shared<Container_t>(g, o.sing >= o.minc ? o.minc - 1 : o.sing);
  }
  void aniso(const Opts &o) {
    ani = std::make_unique<comma::Agglomerator_Anisotropic<Idx, Real, Int>>(g, cc, pool, m.dim, o.thr, o.lidx, o.lines, m.prio, o.build, o.odd, o.maxline, static_cast<comma::CoMMACellCouplingT>(o.coupling), o.dir);
  }
  void aniso_run(const Opts &o) { ani->agglomerate_one_level(o.goal, o.minc, o.maxc, m.prio, false); }
  void iso_run(const Opts &o) {
    auto ar = static_cast<comma::CoMMAAspectRatioT>(o.ar);
    auto nt = static_cast<comma::CoMMANeighbourhoodT>(o.neigh);
    if (o.fc_iter > 1) iso = std::make_unique<comma::Agglomerator_Iterative<Idx, Real, Int>>(g, cc, pool, m.dim, ar, nt, o.fc_iter);
    else iso = std::make_unique<comma::Agglomerator_Biconnected<Idx, Real, Int>>(g, cc, pool, m.dim, ar, nt, o.fc_iter);
    iso->agglomerate_one_level(o.goal, o.minc, o.maxc, m.prio, o.corr);
  }
  void all(const Opts &o) {
    const bool on = o.aniso && (o.build || (o.lidx.size() >= 2 && !o.lines.empty()));
    if (on) { aniso(o); aniso_run(o); } else pool->initialize();
    iso_run(o);
  }
};

template<class T> std::string show(const std::vector<T> &v) {
  std::ostringstream s; s.precision(17); s << '[';
  for (size_t i = 0; i < v.size(); ++i) s << (i ? "," : "") << v[i];
  s << ']'; return s.str();
}
inline std::string show(const Mesh &m) {
  std::ostringstream s;
  s << "mesh n=" << m.n << " dim=" << m.dim << "\n row_ptr=" << show(m.row) << "\n col_ind=" << show(m.col)
    << "\n weights=" << show(m.w) << "\n volumes=" << show(m.vol) << "\n priority=" << show(m.prio) << "\n n_bnd=" << show(m.nbnd) << "\n centers=[";
  for (auto &c : m.cen) s << show(c);
  s << "]\n"; return s.str();
}
inline std::string show(const Opts &o) {
  std::ostringstream s;
  s << "opts aniso=" << o.aniso << " build=" << o.build << " odd=" << o.odd << " thr=" << o.thr << " seed=" << o.seedt
    << " corr=" << o.corr << " goal=" << o.goal << " min=" << o.minc << " max=" << o.maxc << " ar=" << o.ar << " sing=" << o.sing
    << " fc_iter=" << o.fc_iter << " neigh=" << o.neigh << " coupling=" << o.coupling << " dir=" << o.dir
    << " maxline=" << (o.maxline ? std::to_string(*o.maxline) : "none") << "\n compliant=" << show(o.compliant)
    << "\n lines_idx=" << show(o.lidx) << "\n lines=" << show(o.lines) << "\n";
  return s.str();
}

inline bool connected_set(const Mesh &m, const std::vector<Idx> &s) {
  if (s.empty()) return true;
  std::set<Idx> in(s.begin(), s.end()), seen{s[0]};
  std::deque<Idx> q{s[0]};
  while (!q.empty()) {
    Idx c = q.front(); q.pop_front();
    for (Idx k = m.row[c]; k < m.row[c + 1]; ++k)
      if (in.count(m.col[k]) && seen.insert(m.col[k]).second) q.push_back(m.col[k]);
  }
  return seen.size() == in.size();
}
inline int min_compact(const Mesh &m, const std::set<Idx> &s) {
  if (s.size() <= 1) return 0;
  int best = std::numeric_limits<int>::max();
  for (Idx c : s) { int k = 0; for (Idx e = m.row[c]; e < m.row[c + 1]; ++e) k += s.count(m.col[e]) > 0; best = std::min(best, k); }
  return best;
}
inline std::vector<VI> groups(const VI &f2c) {
  Idx mx = 0; for (Idx x : f2c) mx = std::max(mx, x);
  REQUIRE_T(f2c.empty() || mx < f2c.size(), "coarse number " << mx << " too large for " << f2c.size() << " cells; f2c=" << show(f2c));
  std::vector<VI> g(f2c.empty() ? 0 : mx + 1);
  for (Idx i = 0; i < f2c.size(); ++i) g[f2c[i]].push_back(i);
  return g;
}
inline bool close(double a, double b, double tol = 1e-9) {
  if (a == b) return true;
  if (std::isnan(a) && std::isnan(b)) return true;
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= tol * std::max({1.0, std::fabs(a), std::fabs(b)});
}
inline std::shared_ptr<Graph_t> make_graph(const Mesh &m, const VI &compliant = {}) {
  return std::make_shared<Graph_t>(m.n, m.row, m.col, m.w, m.vol, m.cen, m.nbnd, m.dim, compliant);
}
inline void clamp_bnd(Mesh &m) { for (auto &b : m.nbnd) b = std::min<int>(b, m.dim); }
// order used everywhere: higher value first, then smaller index
inline bool ranks_before(double wa, Idx a, double wb, Idx b) { return wa > wb || (wa == wb && a < b); }

// One falsification case. Throws Fail on a violation; fills dump with the
// input; returns a small signature of what was exercised (0 = trivial).
struct Dump {  // written through to shared memory so that it survives a crash
  char *p; size_t cap;
  Dump &operator=(const std::string &t) { snprintf(p, cap, "%s", t.c_str()); return *this; }
  Dump &operator+=(const std::string &t) { size_t l = strlen(p); snprintf(p + l, cap - l, "%s", t.c_str()); return *this; }
};
uint64_t run_case(uint64_t seed, uint64_t idx, Dump &dump);
extern const char *PROP;

struct Shared { char sample[1200];
  volatile uint64_t cur, done, failed, nontrivial;
  char why[6000];
  char dump[60000];
  uint64_t sig[4096];  // bitmap of signatures seen
};

inline int size_for(uint64_t idx) { return idx < 4000 ? 3 + static_cast<int>(idx / 400) : (idx % 10 == 0 ? 70 : 8 + static_cast<int>(idx % 23)); }

inline int runner(int argc, char **argv) {
  uint64_t seed = 1, cases = 1000000000ull, only = UINT64_MAX;
  double tlimit = 10; int jobs = 1;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i];
    if (a == "--seed") seed = strtoull(argv[i + 1], nullptr, 10);
    else if (a == "--cases") cases = strtoull(argv[i + 1], nullptr, 10);
    else if (a == "--time") tlimit = atof(argv[i + 1]);
    else if (a == "--only") only = strtoull(argv[i + 1], nullptr, 10);
    else if (a == "--jobs") jobs = atoi(argv[i + 1]);
  }
  auto *sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  memset(static_cast<void *>(sh), 0, sizeof(Shared) * jobs);
  timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
  auto elapsed = [&]() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec); };
  std::vector<pid_t> pids(jobs);
  std::vector<std::string> errf(jobs);
  for (int j = 0; j < jobs; ++j) {
    char tmpl[] = "/tmp/vfalsXXXXXX";
    int fd = mkstemp(tmpl);
    errf[j] = tmpl;
    pid_t pid = fork();
    if (pid == 0) {
      dup2(fd, 2); close(fd);
      std::cout.setstate(std::ios_base::badbit);
      Shared &S = sh[j];
      uint64_t lo = only != UINT64_MAX ? only : j, step = only != UINT64_MAX ? cases + only + 1 : jobs;
      for (uint64_t i = lo; (only != UINT64_MAX ? i == only : i < cases) && elapsed() < tlimit; i += step) {
        S.cur = i;
        alarm(90);
        Dump dump{S.dump, sizeof S.dump};
        dump = "";
        std::string err;
        try {
          uint64_t sg = run_case(seed, i, dump);
          if (sg && !S.sample[0]) { snprintf(S.sample, sizeof S.sample, "case %lu: %s", (unsigned long)i, S.dump); for (char *q = S.sample; *q; ++q) if (*q == '\n') *q = ' '; }
          if (sg) { S.nontrivial++; sg = (sg * 0x9E3779B97F4A7C15ull) >> 46; S.sig[(sg >> 6) & 4095] |= 1ull << (sg & 63); }
        } catch (const Fail &e) { err = e.what(); }
        catch (const std::exception &e) { err = std::string("unexpected exception: ") + e.what(); }
        if (!err.empty()) {
          S.failed = 1;
          snprintf(S.why, sizeof S.why, "%s", err.c_str());
          _exit(1);
        }
        S.done++;
      }
      _exit(0);
    }
    close(fd);
    pids[j] = pid;
  }
  int bad = -1; std::string why;
  for (int left = jobs; left > 0; --left) {
    int st = 0; pid_t p = wait(&st);
    int j = static_cast<int>(std::find(pids.begin(), pids.end(), p) - pids.begin());
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) continue;
    std::string w;
    if (sh[j].failed) w = sh[j].why;
    else {
      std::ifstream f(errf[j]); std::stringstream ss; ss << f.rdbuf();
      std::string t = ss.str();
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) w = "no result within 90 s (not terminating)";
      else w = "crash, failed assertion or sanitizer report: " + t.substr(0, 2500);
    }
    if (bad < 0 || sh[j].cur < sh[bad].cur) { bad = j; why = w; }
    for (int k = 0; k < jobs; ++k) if (k != j) kill(pids[k], SIGKILL);
    // collect the others, keep the smallest failing case
  }
  for (auto &f : errf) unlink(f.c_str());
  uint64_t done = 0, nt = 0, distinct = 0;
  std::vector<uint64_t> sig(4096, 0);
  for (int j = 0; j < jobs; ++j) { done += sh[j].done; nt += sh[j].nontrivial; for (int k = 0; k < 4096; ++k) sig[k] |= sh[j].sig[k]; }
  for (auto x : sig) distinct += __builtin_popcountll(x);
  printf("STATS prop=%s seed=%lu cases=%lu nontrivial=%lu distinct=%lu time=%.2f\n", PROP, (unsigned long)seed, (unsigned long)done, (unsigned long)nt, (unsigned long)distinct, elapsed());
  for (int j = 0; j < std::min(jobs, 2); ++j) if (sh[j].sample[0]) printf("SAMPLE %s\n", sh[j].sample);
  if (bad >= 0) {
    for (auto &c : why) if (c == '\n') c = ' ';
    printf("FAIL prop=%s case=%lu :: %s\n", PROP, (unsigned long)sh[bad].cur, why.c_str());
    printf("INPUT\n%s\nEND\n", sh[bad].dump);
    return 1;
  }
  printf("OK\n");
  return 0;
}
#define FALSIFIER(ID)                         \
  const char *PROP = ID;                      \
  int main(int argc, char **argv) { return runner(argc, argv); }
#endif
