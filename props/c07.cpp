// C07: boundary priority
#include "common.h"
using namespace pbt;

static void run(Case &c) {
  GenOpts go;
  go.max_n = c.tier ? 160 : 60;
  go.stretched = c.s.chance(1, 4);
  const Mesh m = gen_mesh(c.s, go);
  ArgOpts ao;
  ao.allow_corr = false;
  Args a = gen_args(c.s, m, ao);
  a.pool = c.s.coin() ? 10 : 0;
  c.say(describe(m) + describe(a));
  const Out o = agglomerate(m, a);
  c.say(describe(o));
  const auto ccs = cells_of(o);
  const size_t k = n_aniso(a, o);
  // highest boundary count of the cells that come later
  int later = -1;
  std::set<int> levels;
  for (size_t i = ccs.size(); i-- > k;) {
    int mx = -1;
    for (auto f : ccs[i]) {
      mx = std::max(mx, m.nb(f));
      levels.insert(m.nb(f));
    }
    PBT_CHECK(
      c, mx >= later,
      "isotropic coarse cell " << i << " " << show(ccs[i])
                               << " has at most " << mx
                               << " boundary faces while a free cell had "
                               << later
    );
    later = std::max(later, mx);
  }
  if (k == 0) {
    Idx best = 0;
    for (Idx i = 1; i < m.n(); ++i)
      if (better(m, i, best)) best = i;
    PBT_CHECK(
      c, o.f2c[best] == 0,
      "cell " << best << " has most boundary faces / highest priority but is "
              << "in coarse cell " << o.f2c[best]
    );
  }
  c.nontrivial = levels.size() >= 2 && ccs.size() - k >= 3;
  std_labels(c, m, a, o);
}

const Property pbt::PROPERTY{
  "C07",
  "random mesh graph x random accepted arguments with boundary priority and no "
  "correction; non-trivial: two or more boundary levels among the isotropic "
  "cells and three or more isotropic coarse cells",
  run, 60000, 600000};
