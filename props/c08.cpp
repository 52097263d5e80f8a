// C08: neighbourhood priority
#include "common.h"
using namespace pbt;

static void run(Case &c) {
  GenOpts go;
  go.max_n = c.tier ? 160 : 60;
  go.connected = c.s.chance(1, 2);
  const Mesh m = gen_mesh(c.s, go);
  ArgOpts ao;
  ao.allow_corr = false;
  Args a = gen_args(c.s, m, ao);
  const bool one = c.s.coin();
  a.pool = one ? 11 : 1;
  c.say(describe(m) + describe(a));
  const Out o = agglomerate(m, a);
  c.say(describe(o));
  const auto ccs = cells_of(o);
  const size_t k = n_aniso(a, o);
  const bool conn = mesh_connected(m);
  // initial cells: highest boundary count of the mesh
  int top = 0;
  Idx best = 0;
  for (Idx i = 0; i < m.n(); ++i) {
    top = std::max(top, m.nb(i));
    if (better(m, i, best)) best = i;
  }
  std::vector<bool> done(m.n(), false);
  for (size_t i = 0; i < k; ++i)
    for (auto f : ccs[i]) done[f] = true;
  bool any_done = k > 0;
  size_t jumps = 0;
  for (size_t i = k; i < ccs.size(); ++i) {
    bool touches = false;
    for (auto f : ccs[i])
      for (Idx e = m.row[f]; e < m.row[f + 1]; ++e)
        if (done[m.col[e]]) touches = true;
    if (!touches) {
      ++jumps;
      // is there any free cell adjacent to what is done?
      bool adj = false;
      Idx first = m.n();
      for (Idx f = 0; f < m.n(); ++f) {
        if (done[f]) continue;
        if (first == m.n() || better(m, f, first)) first = f;
        for (Idx e = m.row[f]; e < m.row[f + 1]; ++e)
          if (done[m.col[e]]) adj = true;
      }
      if (!any_done) {
        PBT_CHECK(
          c, o.f2c[best] == i,
          "the first coarse cell does not contain cell " << best
        );
      } else if (conn && (one || k > 0)) {
        c.fail(
          "coarse cell " + std::to_string(i) + " " + show(ccs[i])
          + " touches no earlier one on a connected mesh"
        );
      } else if (conn) {
        bool init = false;
        for (auto f : ccs[i]) init = init || m.nb(f) == top;
        PBT_CHECK(
          c, init,
          "coarse cell " << i << " " << show(ccs[i])
                         << " touches no earlier one and has no initial cell"
        );
      } else if (!adj) {
        // everything reachable is finished: restart from a best free cell
        int mx = -1;
        for (auto f : ccs[i]) mx = std::max(mx, m.nb(f));
        PBT_CHECK(
          c, mx >= m.nb(first),
          "restart in coarse cell " << i << " " << show(ccs[i]) << " with "
                                    << mx << " boundary faces although cell "
                                    << first << " is free and has "
                                    << m.nb(first)
        );
        if (one && k == 0 && jumps == 2)
          // first restart: the very best free cell
          PBT_CHECK(
            c, o.f2c[first] == i,
            "restart in coarse cell " << i << " without the best free cell "
                                      << first
          );
      }
    }
    for (auto f : ccs[i]) done[f] = true;
    any_done = true;
  }
  c.nontrivial = ccs.size() - k >= 4;
  c.label_if(one, "one point");
  c.label_if(conn && one, "one point, connected");
  c.label_if(jumps > 1, "restarts");
  std_labels(c, m, a, o);
}

const Property pbt::PROPERTY{
  "C08",
  "random mesh graph (half of them connected) x random accepted arguments with "
  "neighbourhood priority and no correction; non-trivial: four or more "
  "isotropic coarse cells",
  run, 60000, 600000};
