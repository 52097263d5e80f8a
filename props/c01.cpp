// C01: total partition, contiguous IDs
#include "api.h"
using namespace pbt;

static void run(Case &c) {
  GenOpts go;
  go.max_n = c.tier ? 160 : 60;
  go.huge = c.huge;
  go.stretched = c.s.chance(1, 3);
  const Mesh m = gen_mesh(c.s, go);
  const Args a = gen_args(c.s, m);
  c.say(describe(m) + describe(a));
  const Out o = agglomerate(m, a);
  c.say(describe(o));
  PBT_CHECK(
    c, o.f2c.size() == m.n(),
    "fine-to-coarse has " << o.f2c.size() << " entries for " << m.n() << " cells"
  );
  const size_t N = o.n_cc();
  PBT_CHECK(
    c, N <= m.n(), "coarse ID " << N - 1 << " with only " << m.n() << " cells"
  );
  std::vector<bool> used(N, false);
  for (auto v : o.f2c) used[v] = true;
  for (size_t i = 0; i < N; ++i)
    PBT_CHECK(c, used[i], "coarse ID " << i << " is skipped, " << N - 1 << " is used: " << show(o.f2c));
  c.nontrivial = N >= 2;
  c.label_if(a.corr, "correction");
  c.label_if(a.is_aniso && !o.lines.empty(), "anisotropic CCs");
  c.label_if(a.fc_iter > 1, "look-ahead");
  c.label_if(m.n() > 30, "n>30");
  c.label_if(m.family.find('+') != std::string::npos, "disconnected mesh");
}

const Property pbt::PROPERTY{
  "C01",
  "random mesh graph (grids, stretched grids, triangulations, trees, stars, "
  "cycles, complete and geometric graphs, disjoint unions) x random accepted "
  "arguments; non-trivial: at least two coarse cells",
  run, 60000, 600000, 16};
