#include "common.h"
// C18: memory safety; every run of the library under the sanitizers, with
// library assertions on. Any exception on valid input is a violation too.
uint64_t run_case(uint64_t seed, uint64_t idx, Dump &dump) {
  Rng r(seed, idx);
  Mesh m = gen_mesh(r, size_for(idx));
  Opts o = gen_opts(r, m);
  dump = show(m) + show(o);
  Res x = run(m, o);
  VI ci, ca; VR cw, cv, cp; std::vector<VR> cc; std::vector<Int> cb;
  comma::build_coarse_graph<Idx, Real, Int>(x.f2c, m.row, m.col, m.w, m.vol, m.cen, m.prio, m.nbnd, ci, ca, cw, cv, cc, cp, cb);
  return m.n > 3 ? 1 + o.aniso + 2 * o.build + 4 * o.corr + 8 * o.neigh + 16 * o.ar + 256 * m.n + 65536 * o.fc_iter : 0;
}
FALSIFIER("C18")
