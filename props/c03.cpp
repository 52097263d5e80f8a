// C03: maximum cardinality
#include "common.h"
using namespace pbt;

static void run(Case &c) {
  GenOpts go;
  go.max_n = c.tier ? 160 : 60;
  go.huge = c.huge;
  go.stretched = c.s.chance(1, 3);
  const Mesh m = gen_mesh(c.s, go);
  Args a = gen_args(c.s, m);
  if (a.corr && c.s.coin()) a.corr = false;
  c.say(describe(m) + describe(a));
  const Out o = agglomerate(m, a);
  c.say(describe(o));
  const auto ccs = cells_of(o);
  const size_t k = n_aniso(a, o);
  bool at_max = false, above = false;
  for (size_t i = 0; i < ccs.size(); ++i) {
    const size_t sz = ccs[i].size();
    if (i < k) {
      PBT_CHECK(
        c, sz == 2 || (sz == 3 && a.odd),
        "anisotropic coarse cell " << i << " has " << sz
                                   << " cells, odd lengths "
                                   << (a.odd ? "allowed" : "not allowed")
      );
    } else if (!a.corr) {
      PBT_CHECK(
        c, sz <= static_cast<size_t>(a.max),
        "isotropic coarse cell " << i << " has " << sz << " cells, maximum is "
                                 << a.max
      );
    }
    if (i >= k && sz == static_cast<size_t>(a.max)) at_max = true;
    if (i >= k && sz > static_cast<size_t>(a.max)) above = true;
  }
  if (a.corr && above) {
    // Only correction may do that: without it the limit holds
    Args b = a;
    b.corr = false;
    const Out p = agglomerate(m, b);
    const auto pcc = cells_of(p);
    for (size_t i = n_aniso(b, p); i < pcc.size(); ++i)
      PBT_CHECK(
        c, pcc[i].size() <= static_cast<size_t>(a.max),
        "isotropic coarse cell " << i << " has " << pcc[i].size()
                                 << " cells without correction"
      );
  }
  c.nontrivial = at_max || k > 0;
  c.label_if(above, "correction exceeded the maximum");
  c.label_if(at_max, "coarse cell at the maximum");
  std_labels(c, m, a, o);
}

const Property pbt::PROPERTY{
  "C03",
  "random mesh graph x random accepted arguments; non-trivial: some isotropic "
  "coarse cell reaches the maximum or there are anisotropic coarse cells",
  run, 60000, 600000, 16};
