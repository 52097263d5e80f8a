// C27: graph neighbourhood and compactness queries match their definitions
#include "common.h"
#include "model.h"
using namespace pbt;

namespace {
void run(Case &c) {
  GenOpts go;
  go.max_n = c.tier ? 120 : 60;
  const Mesh m = gen_mesh(c.s, go);
  const Idx n = m.n();
  const comma::Dual_Graph<Idx, Real, Int> g(
    n, m.row, m.col, m.w, m.vol, m.cen, m.nbnd, m.dim, std::vector<Idx>{}
  );
  c.say(describe(m));
  size_t big = 0, extended = 0;
  const int rounds = 1 + static_cast<int>(c.s.draw(4));
  for (int q = 0; q < rounds; ++q) {
    std::vector<bool> agg(n, false);
    const int dens = static_cast<int>(c.s.draw(4));
    for (Idx i = 0; i < n; ++i) agg[i] = dens && c.s.chance(dens, 5);
    std::set<Idx> seeds;
    const size_t ns = c.s.coin() ? 1 : 1 + c.s.draw(4);
    for (size_t i = 0; i < ns; ++i) seeds.insert(c.s.draw(n));
    const bool mark = c.s.coin();  // seeds may be marked as agglomerated or not
    if (mark)
      for (auto x : seeds) agg[x] = true;
    const int order = static_cast<int>(c.s.range(1, 5));
    const int card = static_cast<int>(c.s.range(2, c.s.coin() ? 8 : 30));
    const std::unordered_set<Idx> us(seeds.begin(), seeds.end());
    std::string txt;
    for (Idx i = 0; i < n; ++i) txt += agg[i] ? '1' : '0';
    c.say(
      " query order " + std::to_string(order) + " card " + std::to_string(card)
      + " seeds " + show(std::vector<Idx>(seeds.begin(), seeds.end())) + " done "
      + txt
    );
    std::unordered_map<Idx, Int> d;
    Int o = order;
    g.compute_neighbourhood_of_cc(us, o, d, card, agg);
    const auto exp = neighbourhood(m, seeds, agg, order, card);
    const std::map<Idx, int> got(d.begin(), d.end());
    auto str = [](const std::map<Idx, int> &x) {
      std::string r;
      for (auto &[k, v] : x)
        r += " " + std::to_string(k) + ":" + std::to_string(v);
      return r;
    };
    PBT_CHECK(
      c, got == exp, "neighbourhood" << str(got) << " instead of" << str(exp)
    );
    int far = 0;
    for (auto &[k, v] : exp) far = std::max(far, v);
    extended += far > order;
    // direct neighbours
    std::set<Idx> dn;
    for (auto s : seeds)
      for (Idx e = m.row[s]; e < m.row[s + 1]; ++e)
        if (!agg[m.col[e]] && !seeds.count(m.col[e])) dn.insert(m.col[e]);
    const auto gn = g.get_neighbourhood_of_cc(us, agg);
    PBT_CHECK(
      c, std::set<Idx>(gn.begin(), gn.end()) == dn,
      "direct neighbours "
        << show(std::vector<Idx>(gn.begin(), gn.end())) << " instead of "
        << show(std::vector<Idx>(dn.begin(), dn.end()))
    );
    // compactness of the seeds with part of their neighbourhood
    std::set<Idx> t(seeds);
    for (auto &[k, v] : exp)
      if (v <= 2 && c.s.coin()) t.insert(k);
    if (c.s.chance(1, 8)) t.clear();
    const std::unordered_set<Idx> ut(t.begin(), t.end());
    const int cm = compactness(m, t);
    const auto gc = g.compute_min_fc_compactness_inside_a_cc(ut);
    PBT_CHECK(
      c, gc == cm, "compactness of " << show(std::vector<Idx>(t.begin(), t.end()))
                                     << " is " << gc << " instead of " << cm
    );
    const auto per = g.compute_fc_compactness_inside_a_cc(ut);
    PBT_CHECK(
      c, per.size() == t.size(),
      "compactness of " << per.size() << " cells of " << t.size()
    );
    for (auto x : t) {
      int k = 0;
      for (Idx e = m.row[x]; e < m.row[x + 1]; ++e) k += t.count(m.col[e]) != 0;
      const auto it = per.find(x);
      PBT_CHECK(
        c, it != per.end() && it->second == k,
        "cell " << x << " has " << (it == per.end() ? -1 : it->second)
                << " neighbours in the set instead of " << k
      );
    }
    big += exp.size() > 2 && t.size() > 2;
  }
  // neighbours
  for (Idx i = 0; i < n; ++i) {
    const auto v = g.get_neighbours(i);
    PBT_CHECK(
      c,
      std::vector<Idx>(v.begin(), v.end())
        == std::vector<Idx>(m.col.begin() + m.row[i], m.col.begin() + m.row[i + 1]),
      "neighbours of " << i << ": " << show(std::vector<Idx>(v.begin(), v.end()))
    );
  }
  c.nontrivial = big > 0;
  c.label_if(extended > 0, "beyond the requested order");
}
}  // namespace

const Property pbt::PROPERTY{
  "C27",
  "random graph x up to four queries with random seeds, agglomerated cells, "
  "order and cardinality; non-trivial: a query with more than two cells in "
  "the neighbourhood and in the measured set",
  run, 100000, 1000000};
