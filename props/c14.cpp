// C14: pairing of the cells of given lines
#include "model.h"
using namespace pbt;

static void run(Case &c) {
  Src &s = c.s;
  GenOpts go;
  go.max_n = c.tier ? 120 : 60;
  go.huge = c.huge;
  const Mesh m = gen_mesh(s, go);
  ArgOpts ao;
  ao.aniso = 2;
  ao.allow_iter = false;
  Args a = gen_args(s, m, ao);
  a.build_lines = false;
  a.max_line.reset();
  if (s.coin())
    a.max_line = 1 + (m.n() > 100 && s.coin() ? s.draw(m.n()) : s.draw(9));
  if (a.lidx.empty() || s.coin()) gen_lines(s, m, a.lidx, a.lines);
  c.say(describe(m) + describe(a));
  const Out o = agglomerate(m, a);
  c.say(describe(o));
  const auto ccs = cells_of(o);
  if (!aniso_active(a)) {
    PBT_CHECK(
      c, o.lidx == a.lidx && o.lines == a.lines, "lines changed though not used"
    );
    return;
  }
  const auto lines = split_lines(a.lidx, a.lines);
  const auto p = pair_lines_model(m, a, lines);
  PBT_CHECK(
    c, o.lines.size() == p.ccs.size(),
    o.lines.size() << " anisotropic coarse cells instead of " << p.ccs.size()
  );
  std::vector<Idx> lidx;
  if (!p.per_line.empty()) {
    lidx.push_back(0);
    for (auto x : p.per_line) lidx.push_back(lidx.back() + x);
  }
  PBT_CHECK(
    c, o.lidx == lidx,
    "offsets of lines " << show(o.lidx) << " instead of " << show(lidx)
  );
  size_t triples = 0, longest = 0;
  std::vector<bool> in_cc(m.n(), false);
  for (size_t i = 0; i < p.ccs.size(); ++i) {
    auto x = p.ccs[i];
    triples += x.size() == 3;
    std::sort(x.begin(), x.end());
    for (auto f : x) in_cc[f] = true;
    PBT_CHECK(
      c, o.lines[i] == i && ccs[i] == x,
      "anisotropic coarse cell " << i << " is " << show(ccs[i]) << " instead of "
                                 << show(x)
    );
  }
  size_t surplus = 0;
  for (auto &l : lines) {
    longest = std::max(longest, l.size());
    for (auto f : l) surplus += !in_cc[f];
  }
  // cells left over belong to the isotropic stage
  for (Idx f = 0; f < m.n(); ++f)
    PBT_CHECK(
      c, in_cc[f] || o.f2c[f] >= p.ccs.size(),
      "cell " << f << " should have been left to the isotropic stage"
    );
  c.nontrivial = longest >= 3;
  c.label_if(longest > 127, "line of more than 127 cells");
  c.label_if(triples > 0, "triple");
  c.label_if(surplus > 0, "cells left to the isotropic stage");
  c.label_if(a.max_line.has_value(), "limit");
  c.label_if(longest >= 6, "line of six or more cells");
}

const Property pbt::PROPERTY{
  "C14",
  "random mesh graph x random disjoint chains of adjacent cells given as lines "
  "x odd option x limit; non-trivial: a line of three or more cells",
  run, 80000, 700000, 16};
