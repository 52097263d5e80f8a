// Calls into the library under test
#pragma once
#include "CoMMA/CoMMA.h"
#include "mesh.h"

namespace pbt {

template<typename I = Idx, typename R = Real, typename N = Int>
inline void raw_call(
  const std::vector<I> &row,
  const std::vector<I> &col,
  const std::vector<R> &w,
  const std::vector<R> &vol,
  const std::vector<std::vector<R>> &cen,
  const std::vector<R> &prio,
  const std::vector<N> &nbnd,
  int dim,
  const Args &a,
  std::vector<I> &f2c,
  std::vector<I> &lidx,
  std::vector<I> &lines
) {
  std::vector<I> compliant(a.compliant.begin(), a.compliant.end());
  std::optional<I> ml;
  if (a.max_line) ml = static_cast<I>(*a.max_line);
  comma::agglomerate_one_level<I, R, N>(
    row, col, w, vol, cen, prio, compliant, nbnd, a.build_lines, a.is_aniso,
    a.odd, a.thr, static_cast<comma::CoMMASeedsPoolT>(a.pool), f2c, lidx, lines,
    a.corr, static_cast<N>(dim), static_cast<N>(a.goal),
    static_cast<N>(a.min), static_cast<N>(a.max),
    static_cast<comma::CoMMAAspectRatioT>(a.ar), static_cast<N>(a.sing), ml,
    static_cast<comma::CoMMACellCouplingT>(a.coupling), a.force_dir,
    static_cast<N>(a.fc_iter), static_cast<comma::CoMMANeighbourhoodT>(a.nbh)
  );
}

inline Out agglomerate(const Mesh &m, const Args &a) {
  Out o;
  o.lidx = a.lidx;
  o.lines = a.lines;
  raw_call<>(
    m.row, m.col, m.w, m.vol, m.cen, m.prio, m.nbnd, m.dim, a, o.f2c, o.lidx,
    o.lines
  );
  return o;
}

}  // namespace pbt
