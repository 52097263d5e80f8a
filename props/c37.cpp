// C37: tagging of the anisotropic cells
#include <deque>

#include "model.h"
using namespace pbt;

namespace {
void run(Case &c) {
  Src &s = c.s;
  GenOpts go;
  go.max_n = c.tier ? 120 : 60;
  go.huge = c.huge;
  go.stretched = s.coin();
  const Mesh m = gen_mesh(s, go);
  const Idx n = m.n();
  std::vector<Idx> comp;
  const auto keep = s.draw(3);
  for (Idx i = 0; i < n; ++i)
    if (c.huge ? keep == 0 || i % 8 != keep
               : keep == 0 || s.chance(keep == 1 ? 3 : 1, 4))
      comp.push_back(i);
  if (!c.huge) s.shuffle(comp);
  const Real thr
    = s.pick({4., 2., 1.5, 1., 1.25, 3., 8., 0., -1., -4., 0.5, 16.});
  const int coupling = static_cast<int>(s.draw(2));
  const Idx pres = s.pick({0ul, 0ul, 2ul, 3ul, 1ul});
  c.say(
    describe(m) + " compliant=" + show(comp) + " thr=" + std::to_string(thr)
    + " coupling=" + std::to_string(coupling)
    + " preserving=" + std::to_string(pres)
  );
  comma::Dual_Graph<Idx, Real, Int> g(
    n, m.row, m.col, m.w, m.vol, m.cen, m.nbnd, m.dim, comp
  );
  // what is there before stays
  const Real mark = -7;
  std::vector<Real> alt(s.coin() ? m.col.size() : 0, 3.), top(n, mark);
  const auto alt0 = alt;
  std::vector<bool> is(n, false);
  std::deque<Idx> pool;
  Idx before = n;
  if (s.chance(1, 8)) {
    before = s.draw(n);
    pool.push_back(before);
    is[before] = true;
  }
  g.tag_anisotropic_cells(
    alt, top, is, pool, thr, m.prio,
    static_cast<comma::CoMMACellCouplingT>(coupling), pres
  );

  const std::set<Idx> allowed(comp.begin(), comp.end());
  std::vector<Idx> want;
  std::vector<Real> walt(m.col.size(), 0.);
  bool some = false;
  for (Idx i = 0; i < n; ++i) {
    if (!allowed.count(i)) {
      PBT_CHECK(c, top[i] == mark, "weight of cell " << i << " was set");
      continue;
    }
    Real hi = 0, lo = std::numeric_limits<Real>::max(), near = 0;
    for (Idx e = m.row[i]; e < m.row[i + 1]; ++e) {
      hi = std::max(hi, m.w[e]);
      lo = std::min(lo, m.w[e]);
      walt[e] = 1. / sqdist(m.cen[i], m.cen[m.col[e]]);
      near = std::max(near, walt[e]);
    }
    const Idx deg = m.row[i + 1] - m.row[i];
    const Real wtop = coupling == 1 ? near : hi;
    if (deg > 0)
      PBT_CHECK(
        c, std::fabs(top[i] - wtop) <= 1e-12 * wtop,
        "highest coupling of cell " << i << ": " << top[i] << " instead of "
                                    << wtop
      );
    bool in = thr < 0;
    if (!in) {
      const Real lim = m.dim == 2 ? thr : thr * thr;
      if (deg == 0)
        in = thr == 0;
      else if (hi == lim * lo)
        in = true;
      else if (std::fabs(hi - lim * lo) < 1e-9 * hi) {
        c.label("ratio close to the threshold");
        return;
      } else
        in = hi > lim * lo;
      if (in && pres == 2) in = deg == 4 || (deg == 3 && m.nbnd[i] > 0);
      if (in && pres == 3) in = deg == 6 || (deg == 5 && m.nbnd[i] > 0);
      some = some || deg > 0;
    }
    if (in) want.push_back(i);
  }
  std::stable_sort(want.begin(), want.end(), [&](Idx a, Idx b) {
    return m.prio[a] > m.prio[b];
  });
  std::vector<bool> wis(n, false);
  for (const auto i : want) wis[i] = true;
  c.nontrivial = some && !want.empty() && want.size() < n;
  if (before < n) {
    wis[before] = true;
    want.insert(want.begin(), before);
  }
  const std::vector<Idx> got(pool.begin(), pool.end());
  PBT_CHECK(
    c, got == want,
    "anisotropic cells " << show(got) << " instead of " << show(want)
  );
  PBT_CHECK(c, is == wis, "flags of anisotropic cells");
  if (coupling == 1) {
    PBT_CHECK(c, alt.size() == walt.size(), "size of the couplings");
    for (size_t e = 0; e < walt.size(); ++e)
      PBT_CHECK(
        c, std::fabs(alt[e] - walt[e]) <= 1e-12 * walt[e],
        "coupling of edge " << e << ": " << alt[e] << " instead of " << walt[e]
      );
  } else {
    PBT_CHECK(c, alt == alt0, "couplings were changed");
  }
  c.label_if(pres == 2, "keeping quadrangles");
  c.label_if(pres == 3, "keeping hexahedra");
  c.label_if(coupling == 1, "by distance");
}
}  // namespace

const Property pbt::PROPERTY{
  "C37",
  "random mesh x random compliant cells, threshold, coupling and kind of cells "
  "to keep; non-trivial: a threshold is applied, some cells are anisotropic "
  "and some are not",
  run, 60000, 600000, 16};
