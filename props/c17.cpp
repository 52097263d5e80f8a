// C17: neighbourhood-based wall distance
#include "model.h"
using namespace pbt;

static void run(Case &c) {
  Src &s = c.s;
  GenOpts go;
  go.max_n = c.tier ? 200 : 80;
  go.huge = c.huge;
  const Mesh m = gen_mesh(s, go);
  const size_t n = m.n();
  std::vector<Idx> wall;
  if (!s.chance(1, 10)) {
    const size_t k = s.chance(1, 3) ? 1 : 1 + s.draw(c.huge ? 4 : n);
    for (size_t i = 0; i < k; ++i) wall.push_back(s.draw(n));
  }
  std::vector<Int> dist(s.draw(2 * n + 1), 42);
  const bool reuse = s.chance(1, 4);
  c.say(describe(m) + " wall=" + show(wall));
  if (reuse)
    comma::compute_neighbourhood_based_wall_distance<Idx, Int>(
      m.row, m.col, {static_cast<Idx>(s.draw(n))}, dist
    );
  comma::compute_neighbourhood_based_wall_distance<Idx, Int>(
    m.row, m.col, wall, dist
  );
  c.say(" -> " + show(dist));
  // level by level, or (short enough) Bellman-Ford style definition
  const Int INF = static_cast<Int>(n) + 1;
  std::vector<Int> ref(n, INF);
  for (auto x : wall) ref[x] = 0;
  std::vector<Idx> level = wall;
  for (Int d = 1; c.huge && !level.empty(); ++d) {
    std::vector<Idx> next;
    for (auto i : level)
      for (Idx e = m.row[i]; e < m.row[i + 1]; ++e)
        if (ref[m.col[e]] == INF) {
          ref[m.col[e]] = d;
          next.push_back(m.col[e]);
        }
    level = std::move(next);
  }
  for (bool ch = true; ch;) {
    ch = false;
    for (Idx i = 0; i < n; ++i)
      for (Idx e = m.row[i]; e < m.row[i + 1]; ++e)
        if (ref[m.col[e]] + 1 < ref[i]) {
          ref[i] = ref[m.col[e]] + 1;
          ch = true;
        }
  }
  PBT_CHECK(c, dist.size() == n, "size " << dist.size() << " instead of " << n);
  Int far = 0;
  bool un = false;
  for (Idx i = 0; i < n; ++i) {
    const Int e = ref[i] >= INF ? -1 : ref[i];
    PBT_CHECK(
      c, dist[i] == e, "distance of " << i << " is " << dist[i] << " instead of " << e
    );
    far = std::max(far, e);
    un = un || e < 0;
  }
  c.nontrivial = far >= 2;
  c.label_if(un, "cells not reached");
  c.label_if(far >= 6, "distance >= 6");
  c.label_if(wall.empty(), "no wall");
}

const Property pbt::PROPERTY{
  "C17",
  "random graph (connected or not) x random wall list (empty, repeated, any "
  "order) x previous contents of the output; non-trivial: a cell two or more "
  "steps away from the wall",
  run, 120000, 1000000, 16};
