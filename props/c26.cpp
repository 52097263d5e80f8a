// C26: growth candidates are exactly the documented neighbourhood
#include "CoMMA/Neighbourhood.h"
#include "common.h"
#include "model.h"
using namespace pbt;

namespace {
using NB = comma::Neighbourhood<Idx, Real, Int>;
using EXT = comma::Neighbourhood_Extended<Idx, Real, Int>;
using PF = comma::Neighbourhood_Pure_Front<Idx, Real, Int>;

std::vector<Idx> cands(const NB &n) {
  const auto &c = n.get_candidates();
  return std::vector<Idx>(c.begin(), c.end());
}

void run(Case &c) {
  GenOpts go;
  go.max_n = c.tier ? 60 : 30;
  const Mesh m = gen_mesh(c.s, go);
  const Idx n = m.n();
  const int type = static_cast<int>(c.s.draw(2));
  const Idx seed = c.s.draw(n);
  std::unordered_set<Idx> allowed;
  const int how = static_cast<int>(c.s.draw(3));
  for (Idx i = 0; i < n; ++i)
    if (i != seed && (how == 0 || c.s.chance(how == 1 ? 3 : 1, 4)))
      allowed.insert(i);
  std::vector<Real> w(n);
  const size_t distinct = 1 + c.s.draw(n);
  for (auto &x : w) x = static_cast<Real>(c.s.draw(distinct)) / 2 - 2;
  const comma::NeighbourhoodExtendedCreator<Idx, Real, Int> ce{};
  const comma::NeighbourhoodPureFrontCreator<Idx, Real, Int> cp{};
  struct Live {
    std::shared_ptr<NB> real;
    FrontModel model;
  };
  std::vector<Live> live;
  FrontModel f0;
  f0.type = type;
  f0.dim = m.dim;
  f0.allowed.insert(allowed.begin(), allowed.end());
  f0.w = &w;
  std::shared_ptr<NB> r0;
  if (c.s.coin()) {
    if (type == 0) r0 = ce.create(allowed, w, m.dim);
    else r0 = cp.create(allowed, w, m.dim);
  } else if (type == 0) {
    r0 = std::make_shared<EXT>(allowed, w);
  } else {
    r0 = std::make_shared<PF>(allowed, w, m.dim);
  }
  live.push_back({r0, f0});
  c.say(
    describe(m) + (type ? " pure front" : " extended") + " seed "
    + std::to_string(seed) + " allowed "
    + show(std::vector<Idx>(allowed.begin(), allowed.end())) + " weights "
    + show(w)
  );
  size_t adds = 0, clones = 0, fallback = 0, batches = 0;
  auto add = [&](Live &l, Idx cell) {
    std::vector<Idx> nb(m.col.begin() + m.row[cell], m.col.begin() + m.row[cell + 1]);
    if (c.s.chance(1, 4)) {
      c.s.shuffle(nb);
      l.real->update(cell, nb);
    } else if (!if_there(
                 *l.real,
                 [&](auto &r)
                   -> decltype(void(r.update_it(cell, nb.cbegin(), nb.cend()))) {
                   r.update_it(cell, nb.cbegin(), nb.cend());
                 },
                 0
               )) {
      l.real->update(cell, nb);
    }
    l.model.add(cell, nb);
    ++adds;
    size_t fresh = 0;
    for (auto x : nb) fresh += l.model.allowed.count(x) && !l.model.cc.count(x);
    if (fresh == 0 && !l.model.cand.empty()) ++fallback;
    batches += fresh > 1;
  };
  auto verify = [&](const char *what) {
    for (size_t i = 0; i < live.size(); ++i) {
      const auto got = cands(*live[i].real);
      PBT_CHECK(
        c, got == live[i].model.cand,
        "after " << what << ": candidates of object " << i << " are "
                 << show(got) << " instead of " << show(live[i].model.cand)
      );
      if (type == 0) continue;
      // the fronts of the previous steps, the newest first
      const auto pf = std::dynamic_pointer_cast<PF>(live[i].real);
      const auto &hist = live[i].model.hist;
      for (size_t k = 0; k < hist.size(); ++k) {
        std::vector<Idx> old, expect(hist[k].begin(), hist[k].end());
        live[i].model.sorted(expect);
        for (const auto &p : pf->get_neighbours_by_level(static_cast<Int>(k))) {
          old.push_back(p.first);
          PBT_CHECK(c, p.second == w[p.first], "weight of cell " << p.first);
        }
        PBT_CHECK(
          c, old == expect,
          "after " << what << ": front " << k << " of object " << i << " is "
                   << show(old) << " instead of " << show(expect)
        );
      }
    }
  };
  add(live[0], seed);
  c.say(" add " + std::to_string(seed));
  verify("the seed");
  const size_t steps = 1 + c.s.draw(c.tier ? 24 : 14);
  for (size_t k = 0; k < steps; ++k) {
    const size_t i = c.s.draw(live.size());
    if (c.s.chance(1, 6) && live.size() < 4) {
      std::shared_ptr<NB> copy;
      if (c.s.coin()) {
        if (type == 0) copy = ce.clone(live[i].real);
        else copy = cp.clone(live[i].real);
      } else if (type == 0) {
        copy = std::make_shared<EXT>(*std::dynamic_pointer_cast<EXT>(live[i].real));
      } else {
        copy = std::make_shared<PF>(*std::dynamic_pointer_cast<PF>(live[i].real));
      }
      live.push_back({copy, live[i].model});
      ++clones;
      c.say(" clone " + std::to_string(i));
      verify("a clone");
      continue;
    }
    auto &l = live[i];
    Idx cell = n;
    if (!l.model.cand.empty() && !c.s.chance(1, 8)) {
      cell = l.model.cand[c.s.draw(l.model.cand.size())];
    } else {
      cell = c.s.draw(n);
      if (l.model.cc.count(cell)) continue;
    }
    c.say(" add " + std::to_string(cell) + " to " + std::to_string(i));
    add(l, cell);
    verify("an addition");
  }
  c.nontrivial = adds > 3 && batches > 0;
  c.label(type ? "pure front" : "extended");
  c.label_if(clones > 0, "clones");
  c.label_if(fallback > 0, "no neighbour of the last cell left");
  c.label_if(adds > static_cast<size_t>(m.dim) + 2, "beyond the initial steps");
}
}  // namespace

const Property pbt::PROPERTY{
  "C26",
  "random graph, allowed set and weights x random history of additions (from "
  "the candidates or not) and clones of up to four objects; non-trivial: more "
  "than three additions, one of them with several new neighbours",
  run, 100000, 1000000};
