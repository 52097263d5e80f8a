// C04: undersized coarse cells only where free cells ran out
#include "common.h"
using namespace pbt;

static void run(Case &c) {
  GenOpts go;
  go.max_n = c.tier ? 160 : 60;
  go.stretched = c.s.chance(1, 4);
  const Mesh m = gen_mesh(c.s, go);
  ArgOpts ao;
  ao.allow_corr = false;
  const Args a = gen_args(c.s, m, ao);
  c.say(describe(m) + describe(a));
  const Out o = agglomerate(m, a);
  c.say(describe(o));
  const auto ccs = cells_of(o);
  const size_t k = n_aniso(a, o);
  size_t small = 0;
  for (size_t i = k; i < ccs.size(); ++i) {
    if (ccs[i].size() >= static_cast<size_t>(a.min)) continue;
    ++small;
    for (auto f : ccs[i])
      for (Idx e = m.row[f]; e < m.row[f + 1]; ++e) {
        const Idx g = m.col[e];
        PBT_CHECK(
          c, o.f2c[g] <= i,
          "coarse cell " << i << " has " << ccs[i].size()
                         << " cells (minimum " << a.min << ") although cell "
                         << g << ", next to its cell " << f
                         << ", was still free (it went to coarse cell "
                         << o.f2c[g] << ")"
        );
      }
  }
  c.nontrivial = small > 0 && ccs.size() > small;
  std_labels(c, m, a, o);
}

const Property pbt::PROPERTY{
  "C04",
  "random mesh graph x random accepted arguments without correction; "
  "non-trivial: some coarse cell is smaller than the minimum and some is not",
  run, 60000, 600000};
