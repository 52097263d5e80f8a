// C02: every coarse cell is connected
#include "common.h"
using namespace pbt;

static void run(Case &c) {
  GenOpts go;
  go.max_n = c.tier ? 160 : 60;
  go.huge = c.huge;
  go.stretched = c.s.chance(1, 4);
  const Mesh m = gen_mesh(c.s, go);
  const Args a = gen_args(c.s, m);
  c.say(describe(m) + describe(a));
  const Out o = agglomerate(m, a);
  c.say(describe(o));
  const auto ccs = cells_of(o);
  size_t big = 0;
  for (size_t i = 0; i < ccs.size(); ++i) {
    const size_t k = count_components(m, ccs[i]);
    PBT_CHECK(
      c, k <= 1,
      "coarse cell " << i << " with cells " << show(ccs[i]) << " has " << k
                     << " components"
    );
    if (ccs[i].size() >= 3) ++big;
  }
  c.nontrivial = big >= 1 && ccs.size() >= 2;
  std_labels(c, m, a, o);
}

const Property pbt::PROPERTY{
  "C02",
  "random mesh graph x random accepted arguments; non-trivial: at least two "
  "coarse cells, one of them with three or more fine cells",
  run, 60000, 600000, 16};
