// Instantiates every part of the library that is under contract; only used to
// make the compiler produce the resolved syntax tree, never executed.
#include "CoMMA/CoMMA.h"
#include "CoMMA/Util.h"
namespace comma {
using Idx = unsigned long; using Real = double; using Int = int;
inline void vf_drive(const std::vector<Idx> &ci, const std::vector<Int> &cint, const std::unordered_set<Int> &s, std::vector<Idx>&i,std::vector<Int>&d, const std::vector<Real>&cr, std::vector<Real>&r, const std::vector<std::vector<Real>>&cc, std::vector<std::vector<Real>>&c){
  filter_cells_by_n_edges<Idx, Int>(ci, cint, s, i);
  compute_neighbourhood_based_wall_distance<Idx, Int>(ci, ci, ci, d);
  build_coarse_graph<Idx, Real, Int>(ci, ci, ci, cr, cr, cc, cr, cint, i, i, r, r, c, r, d);
  std::pair<Idx,Real> p, q;
  CustomPairLessFunctor<std::pair<Idx,Real>>{}(p, q);
  CustomPairGreaterFunctor<std::pair<Idx,Real>>{}(p, q);
  PairSecondBasedLessFunctor<std::pair<Idx,Real>>{}(p, q);
  agglomerate_one_level<Idx,Real,Int>(ci,ci,cr,cr,cc,cr,ci,cint,true,true,true,1.,CoMMASeedsPoolT::BOUNDARY_PRIORITY,i,i,i,true,2,1,1,1);
}
template void Neighbourhood<Idx, Real, Int>::update(const Idx, const std::vector<Idx> &);
// Clients of the two call forms that leave out every optional argument.
inline void vf_plain_defaults(const std::vector<Idx> &rows, const std::vector<Idx> &cols, const std::vector<Real> &areas, const std::vector<Real> &vols, const std::vector<std::vector<Real>> &centers, const std::vector<Real> &prio, const std::vector<Idx> &compliant, const std::vector<Int> &bnd, bool aniso, CoMMASeedsPoolT pool, std::vector<Idx> &f2c, std::vector<Idx> &li, std::vector<Idx> &l, bool corr, Int dim, Int goal, Int mn, Int mx, bool build, bool odd, Real thr){
  agglomerate_one_level<Idx,Real,Int>(rows,cols,areas,vols,centers,prio,compliant,bnd,build,aniso,odd,thr,pool,f2c,li,l,corr,dim,goal,mn,mx);
}
inline void vf_grouped_defaults(const std::vector<Idx> &rows, const std::vector<Idx> &cols, const std::vector<Real> &areas, const std::vector<Real> &vols, const std::vector<std::vector<Real>> &centers, const std::vector<Real> &prio, const std::vector<Idx> &compliant, const std::vector<Int> &bnd, bool aniso, CoMMASeedsPoolT pool, std::vector<Idx> &f2c, std::vector<Idx> &li, std::vector<Idx> &l, bool corr, Int dim, Int goal, Int mn, Int mx, bool build, bool odd, Real thr){
  const GraphArgs<Idx,Real,Int> graph(rows, cols, areas, vols, centers, prio, bnd, dim);
  const AgglomerationArgs<Idx,Real,Int> agglo(goal, mn, mx, corr, pool);
  const AnisotropicArgs<Idx,Real,Int> an(aniso, compliant, build, odd, thr);
  agglomerate_one_level<Idx,Real,Int>(graph, agglo, an, f2c, li, l);
}
inline void vf_grouped_min(const std::vector<Idx> &rows, const std::vector<Idx> &cols, const std::vector<Real> &areas, const std::vector<Real> &vols, const std::vector<std::vector<Real>> &centers, const std::vector<Real> &prio, const std::vector<Idx> &compliant, const std::vector<Int> &bnd, bool aniso, CoMMASeedsPoolT pool, std::vector<Idx> &f2c, std::vector<Idx> &li, std::vector<Idx> &l, bool corr, Int dim, Int goal, Int mn, Int mx){
  const GraphArgs<Idx,Real,Int> graph(rows, cols, areas, vols, centers, prio, bnd, dim);
  const AgglomerationArgs<Idx,Real,Int> agglo(goal, mn, mx, corr, pool);
  const AnisotropicArgs<Idx,Real,Int> an(aniso, compliant);
  agglomerate_one_level<Idx,Real,Int>(graph, agglo, an, f2c, li, l);
}
inline void vf_grouped_all(const std::vector<Idx> &rows, const std::vector<Idx> &cols, const std::vector<Real> &areas, const std::vector<Real> &vols, const std::vector<std::vector<Real>> &centers, const std::vector<Real> &prio, const std::vector<Idx> &compliant, const std::vector<Int> &bnd, bool aniso, CoMMASeedsPoolT pool, std::vector<Idx> &f2c, std::vector<Idx> &li, std::vector<Idx> &l, bool corr, Int dim, Int goal, Int mn, Int mx, bool build, bool odd, Real thr, CoMMAAspectRatioT ar, Int sing, std::optional<Idx> maxl, CoMMACellCouplingT coup, bool dir, Int iter, CoMMANeighbourhoodT nt){
  const GraphArgs<Idx,Real,Int> graph(rows, cols, areas, vols, centers, prio, bnd, dim);
  const AgglomerationArgs<Idx,Real,Int> agglo(goal, mn, mx, corr, pool, ar, sing, iter, nt);
  const AnisotropicArgs<Idx,Real,Int> an(aniso, compliant, build, odd, thr, maxl, coup, dir);
  agglomerate_one_level<Idx,Real,Int>(graph, agglo, an, f2c, li, l);
}
}
