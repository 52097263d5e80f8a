// C05: correction against the same call without it
#include "common.h"
using namespace pbt;

static void run(Case &c) {
  GenOpts go;
  go.max_n = c.tier ? 160 : 60;
  go.stretched = c.s.chance(1, 3);
  const Mesh m = gen_mesh(c.s, go);
  Args a = gen_args(c.s, m);
  a.corr = true;
  if (a.min < 3 && c.s.coin()) {
    a.min = 3 + static_cast<int>(c.s.draw(2));
    a.goal = std::max(a.goal, a.min);
    a.max = std::max(a.max, a.goal);
    a.sing = 1 + static_cast<int>(c.s.draw(a.min));
  }
  c.say(describe(m) + describe(a));
  Args b = a;
  b.corr = false;
  const Out o0 = agglomerate(m, b), o1 = agglomerate(m, a);
  c.say(" without" + describe(o0) + " with" + describe(o1));
  const auto c0 = cells_of(o0), c1 = cells_of(o1);
  const size_t k = n_aniso(a, o0);
  const size_t t = sing_eff(a);
  PBT_CHECK(
    c, o0.lidx == o1.lidx && o0.lines == o1.lines, "exported lines differ"
  );
  PBT_CHECK(c, o1.f2c.size() == m.n(), "size");
  for (size_t i = 0; i < k; ++i)
    PBT_CHECK(c, c0[i] == c1[i], "anisotropic coarse cell " << i << " changed");
  std::vector<long> owner(c1.size(), -1);
  size_t singular = 0;
  for (size_t i = 0; i < c0.size(); ++i) {
    const bool sing = i >= k && c0[i].size() <= t;
    if (sing) {
      ++singular;
      continue;
    }
    const Idx n = o1.f2c[c0[i][0]];
    for (auto f : c0[i])
      PBT_CHECK(
        c, o1.f2c[f] == n,
        "non-singular coarse cell " << i << " " << show(c0[i])
                                    << " was split by correction"
      );
    PBT_CHECK(
      c, owner[n] < 0,
      "coarse cells " << owner[n] << " and " << i << " were merged"
    );
    owner[n] = i;
  }
  // surviving IDs keep their order
  long prev = -1;
  for (size_t n = 0; n < c1.size(); ++n) {
    long who = owner[n];
    if (who < 0) {
      std::set<Idx> in(c1[n].begin(), c1[n].end());
      for (size_t i = k; i < c0.size() && who < 0; ++i) {
        if (static_cast<long>(i) <= prev || c0[i].size() > t) continue;
        bool all = true;
        for (auto f : c0[i]) all = all && in.count(f);
        if (all) who = i;
      }
      PBT_CHECK(
        c, who >= 0,
        "coarse cell " << n << " " << show(c1[n])
                       << " of the corrected result comes from no earlier one "
                          "in order"
      );
    }
    PBT_CHECK(
      c, who > prev,
      "IDs do not keep their order: corrected coarse cell " << n
        << " comes from " << who << ", the one before from " << prev
    );
    prev = who;
  }
  size_t left = 0;
  for (size_t n = k; n < c1.size(); ++n) {
    if (c1[n].size() > t) continue;
    ++left;
    for (auto f : c1[n])
      for (Idx e = m.row[f]; e < m.row[f + 1]; ++e) {
        const Idx q = o1.f2c[m.col[e]];
        PBT_CHECK(
          c, q == n || q < k,
          "coarse cell " << n << " " << show(c1[n]) << " (threshold " << t
                         << ") was not removed though coarse cell " << q
                         << " is isotropic and next to it"
        );
      }
  }
  c.nontrivial = singular > left && singular > 0 && c1.size() >= 2;
  c.label_if(singular > 0 && t > 1, "threshold above one");
  c.label_if(left > 0, "unremovable singular");
  c.label_if(singular - left > 1, "several removed");
  std_labels(c, m, a, o1);
}

const Property pbt::PROPERTY{
  "C05",
  "random mesh graph x random accepted arguments, run with and without "
  "correction; non-trivial: correction removed at least one singular coarse "
  "cell and two coarse cells remain",
  run, 60000, 600000};
