// C06: choice of the coarse cell a singular one is merged into
#include "model.h"
using namespace pbt;

// random partition in connected sets, as lists of cells in creation order
static std::vector<std::set<Idx>> random_partition(Src &s, const Mesh &m, int t) {
  const size_t n = m.n();
  std::vector<bool> used(n, false);
  std::vector<Idx> order(n);
  for (size_t i = 0; i < n; ++i) order[i] = i;
  s.shuffle(order);
  std::vector<std::set<Idx>> r;
  for (auto seed : order) {
    if (used[seed]) continue;
    const size_t size = s.chance(1, 2) ? 1 + s.draw(t + 1) : 1 + s.draw(7);
    std::set<Idx> cc{seed};
    used[seed] = true;
    while (cc.size() < size) {
      std::vector<Idx> fr;
      for (auto c : cc)
        for (Idx e = m.row[c]; e < m.row[c + 1]; ++e)
          if (!used[m.col[e]]) fr.push_back(m.col[e]);
      if (fr.empty()) break;
      const Idx x = fr[s.draw(fr.size())];
      used[x] = true;
      cc.insert(x);
    }
    r.push_back(cc);
  }
  return r;
}

static std::vector<std::set<Idx>> by_id(const std::vector<Idx> &f2c) {
  size_t N = 0;
  for (auto v : f2c) N = std::max(N, v + 1);
  std::vector<std::set<Idx>> r(N);
  for (Idx i = 0; i < f2c.size(); ++i) r[f2c[i]].insert(i);
  return r;
}

static void run(Case &c) {
  Src &s = c.s;
  GenOpts go;
  go.max_n = c.tier ? 80 : 40;
  go.large = false;
  const Mesh m = gen_mesh(s, go);
  std::vector<std::set<Idx>> before, after;
  std::vector<bool> iso;
  int thresh;
  const bool direct = s.coin();
  if (!direct) {
    ArgOpts ao;
    Args a = gen_args(s, m, ao);
    if (s.chance(1, 2)) a.sing = a.min - 1;
    thresh = sing_eff(a);
    a.corr = false;
    c.say(describe(m) + describe(a));
    const Out u = agglomerate(m, a);
    a.corr = true;
    const Out v = agglomerate(m, a);
    c.say(describe(u) + " corrected" + describe(v));
    before = by_id(u.f2c);
    after = by_id(v.f2c);
    iso.assign(before.size(), true);
    for (size_t i = 0; i < n_aniso(a, u); ++i) iso[i] = false;
  } else {
    thresh = static_cast<int>(s.range(1, 4));
    before = random_partition(s, m, thresh);
    iso.assign(before.size(), true);
    if (s.chance(1, 3))
      for (size_t i = 0; i < iso.size(); ++i)
        if (before[i].size() > 1 && s.chance(1, 3)) iso[i] = false;
    std::vector<Int> nb(m.n());
    for (size_t i = 0; i < m.n(); ++i) nb[i] = m.nb(i);
    std::ostringstream d;
    d << describe(m) << " thresh=" << thresh << " partition";
    for (size_t i = 0; i < before.size(); ++i)
      d << (iso[i] ? " " : " aniso") << IsoModel::show_set(before[i]);
    c.say(d.str());
    auto graph = std::make_shared<comma::Dual_Graph<Idx, Real, Int>>(
      m.n(), m.row, m.col, m.w, m.vol, m.cen, nb, m.dim, std::vector<Idx>{}
    );
    comma::Coarse_Cell_Container<Idx, Real, Int> cont(graph, thresh);
    for (size_t i = 0; i < before.size(); ++i)
      cont.create_cc(
        std::unordered_set<Idx>(before[i].begin(), before[i].end()),
        compactness(m, before[i]), !iso[i]
      );
    cont.correct(static_cast<Int>(2 + s.draw(8)));
    std::vector<Idx> f2c(m.n());
    for (size_t i = 0; i < m.n(); ++i) {
      PBT_CHECK(c, cont._fc_2_cc[i].has_value(), "cell " << i << " lost");
      f2c[i] = cont._fc_2_cc[i].value();
    }
    c.say(" corrected f2c=" + show(f2c));
    after = by_id(f2c);
  }
  std::vector<Idx> order;
  for (Idx i = 0; i < before.size(); ++i)
    if (iso[i] && static_cast<int>(before[i].size()) <= thresh) order.push_back(i);
  CorrModel cm{m, thresh, iso};
  bool ok;
  try {
    ok = cm.match(before, order, after);
  } catch (const Abandon &ab) {
    c.label("abandoned");
    return;
  }
  PBT_CHECK(
    c, ok, "the corrected coarse cells are not those of the documented choice"
  );
  c.nontrivial = cm.single + cm.whole + cm.split > 0;
  c.label_if(cm.single > 0, "single cell moved");
  c.label_if(cm.whole > 0, "moved as a whole");
  c.label_if(cm.split > 0, "dissolved cell by cell");
  c.label_if(cm.compact_inc > 0, "compactness increased");
  c.label_if(direct, "container built directly");
}

const Property pbt::PROPERTY{
  "C06",
  "random mesh graph x (uncorrected and corrected agglomeration of the same "
  "arguments, or a container filled with a random connected partition and "
  "corrected); non-trivial: at least one singular coarse cell merged",
  run, 60000, 500000};
