// C12: validity of the anisotropic lines and of their export
#include "common.h"
using namespace pbt;

static void run(Case &c) {
  Src &s = c.s;
  GenOpts go;
  go.max_n = c.tier ? 160 : 70;
  go.huge = c.huge;
  go.stretched = !s.chance(1, 4);
  const Mesh m = gen_mesh(s, go);
  ArgOpts ao;
  ao.aniso = 2;
  Args a = gen_args(s, m, ao);
  if (!a.build_lines) {
    a.build_lines = true;
    // previous contents of the line vectors must not matter
  }
  c.say(describe(m) + describe(a));
  const Out o = agglomerate(m, a);
  c.say(describe(o));
  const auto ccs = cells_of(o);
  const size_t k = o.lines.size();
  // offsets and IDs
  if (o.lidx.empty()) {
    PBT_CHECK(c, k == 0, "line cells without offsets");
  } else {
    PBT_CHECK(c, o.lidx.front() == 0, "offsets do not start at 0");
    PBT_CHECK(c, o.lidx.back() == k, "offsets do not end at the number of cells");
    for (size_t i = 0; i + 1 < o.lidx.size(); ++i)
      PBT_CHECK(c, o.lidx[i] <= o.lidx[i + 1], "offsets decrease");
  }
  PBT_CHECK(c, k <= ccs.size(), "more line cells than coarse cells");
  for (size_t i = 0; i < k; ++i)
    PBT_CHECK(
      c, o.lines[i] == i,
      "position " << i << " of the lines holds " << o.lines[i]
                  << ": not the lowest IDs in order"
    );
  // eligibility
  const Real thr = (a.thr > 1 || a.thr < 0) ? a.thr : 1. / a.thr;
  const std::set<Idx> comp(a.compliant.begin(), a.compliant.end());
  size_t skipped = 0;
  for (Idx f = 0; f < m.n(); ++f) {
    bool ok = comp.count(f) != 0;
    bool aniso = a.thr < 0;
    if (a.thr >= 0 && m.deg(f) > 0) {
      Real lo = m.w[m.row[f]], hi = lo;
      for (Idx e = m.row[f]; e < m.row[f + 1]; ++e) {
        lo = std::min(lo, m.w[e]);
        hi = std::max(hi, m.w[e]);
      }
      const Real r = m.dim == 2 ? hi / lo : std::sqrt(hi / lo);
      aniso = r >= thr * (1 - 1e-12);
    }
    if (!(ok && aniso)) ++skipped;
    if (o.f2c[f] < k) {
      PBT_CHECK(c, ok, "cell " << f << " of a line is not compliant");
      PBT_CHECK(c, aniso, "cell " << f << " of a line is not anisotropic");
    }
  }
  size_t longest = 0;
  for (size_t l = 0; l + 1 < o.lidx.size(); ++l) {
    longest = std::max<size_t>(longest, o.lidx[l + 1] - o.lidx[l]);
    if (!(a.max_line && *a.max_line < 2))
      PBT_CHECK(c, o.lidx[l] < o.lidx[l + 1], "empty line " << l);
    for (Idx i = o.lidx[l]; i < o.lidx[l + 1]; ++i) {
      PBT_CHECK(
        c, is_connected(m, ccs[i]) && ccs[i].size() >= 2 && ccs[i].size() <= 3,
        "coarse cell " << i << " of a line is " << show(ccs[i])
      );
      PBT_CHECK(
        c, ccs[i].size() == 2 || (a.odd && i + 1 == o.lidx[l + 1]),
        "coarse cell " << i << " with three cells is not the last of its line"
      );
      if (i + 1 == o.lidx[l + 1]) continue;
      bool adj = false;
      for (auto x : ccs[i])
        for (auto y : ccs[i + 1]) adj = adj || m.adjacent(x, y);
      PBT_CHECK(
        c, adj, "coarse cells " << i << " and " << i + 1
                                << " follow each other in a line but are not "
                                   "adjacent"
      );
    }
    if (a.max_line) {
      size_t used = 0;
      for (Idx i = o.lidx[l]; i < o.lidx[l + 1]; ++i) used += ccs[i].size();
      PBT_CHECK(c, used <= *a.max_line, "line longer than the limit");
    }
  }
  c.nontrivial = k >= 2 && skipped > 0;
  c.label_if(longest >= 3, "line of three or more coarse cells");
  c.label_if(o.lidx.size() > 3, "three or more lines");
  c.label_if(k == 0, "no line");
  c.label_if(a.thr < 0, "negative threshold");
  std_labels(c, m, a, o);
}

const Property pbt::PROPERTY{
  "C12",
  "random, mostly stretched, mesh graph x random anisotropic arguments with "
  "lines built by the call; non-trivial: two or more anisotropic coarse cells "
  "and at least one cell that is not eligible",
  run, 60000, 600000, 16};
