// C13: lines = documented line construction
#include "model.h"
using namespace pbt;

static void run(Case &c) {
  Src &s = c.s;
  GenOpts go;
  go.max_n = c.tier ? 160 : 70;
  go.huge = c.huge;
  go.stretched = !s.chance(1, 3);
  const Mesh m = gen_mesh(s, go);
  ArgOpts ao;
  ao.aniso = 2;
  ao.allow_iter = false;
  Args a = gen_args(s, m, ao);
  a.build_lines = true;
  a.lidx.clear();
  a.lines.clear();
  if (s.chance(1, 3)) a.thr = -1.;
  if (!s.chance(1, 4)) a.max_line.reset();
  c.say(describe(m) + describe(a));
  const Out o = agglomerate(m, a);
  c.say(describe(o));
  std::vector<std::vector<Idx>> lines;
  try {
    lines = build_lines_model(m, a);
  } catch (const Abandon &ab) {
    c.label(ab.why);
    c.label("abandoned");
    return;
  }
  const auto p = pair_lines_model(m, a, lines);
  const auto ccs = cells_of(o);
  std::ostringstream d;
  for (auto &l : lines) d << show(l);
  PBT_CHECK(
    c, o.lines.size() == p.ccs.size(),
    o.lines.size() << " anisotropic coarse cells instead of " << p.ccs.size()
                   << "; lines expected " << d.str()
  );
  std::vector<Idx> lidx;
  if (!lines.empty()) {
    lidx.push_back(0);
    for (auto x : p.per_line) lidx.push_back(lidx.back() + x);
  }
  PBT_CHECK(
    c, o.lidx == lidx,
    "offsets of lines " << show(o.lidx) << " instead of " << show(lidx)
                        << "; lines expected " << d.str()
  );
  for (size_t i = 0; i < p.ccs.size(); ++i) {
    auto x = p.ccs[i];
    std::sort(x.begin(), x.end());
    PBT_CHECK(
      c, o.lines[i] == i && ccs[i] == x,
      "anisotropic coarse cell " << i << " is " << show(ccs[i]) << " instead of "
                                 << show(x) << "; lines expected " << d.str()
    );
  }
  size_t longest = 0;
  for (auto &l : lines) longest = std::max(longest, l.size());
  c.nontrivial = longest >= 3;
  c.label_if(longest >= 5, "line of five or more cells");
  c.label_if(lines.size() >= 3, "three or more lines");
  c.label_if(a.coupling == 1, "distance coupling");
  c.label_if(!a.force_dir, "free direction");
  std_labels(c, m, a, o);
}

const Property pbt::PROPERTY{
  "C13",
  "random, mostly stretched, mesh graph x random anisotropic arguments with "
  "lines built by the call; non-trivial: a line of three or more cells, all "
  "choices decided by more than rounding",
  run, 80000, 700000, 16};
