// C29: the coarse-cell container against a list of sets
#include "CoMMA/Coarse_Cell_Container.h"
#include "common.h"
#include "model.h"
using namespace pbt;

namespace {
using Cont = comma::Coarse_Cell_Container<Idx, Real, Int>;

struct Model {
  struct CC {
    std::set<Idx> fcs;
    bool iso;
  };
  std::vector<CC> ccs;
  std::vector<std::set<Idx>> delayed;
};

void verify(Case &c, const Mesh &m, Cont &k, const Model &mod) {
  std::vector<std::optional<Idx>> f2c(m.n());
  size_t agg = 0;
  for (size_t i = 0; i < mod.ccs.size(); ++i)
    for (auto x : mod.ccs[i].fcs) f2c[x] = i, ++agg;
  for (const auto &d : mod.delayed) agg += d.size();
  PBT_CHECK(
    c, k.get_number_of_fc_agglomerated() == agg,
    k.get_number_of_fc_agglomerated() << " agglomerated cells instead of " << agg
  );
  if_there(
    k,
    [&](auto &x) -> decltype(void(x.get_nb_of_cc())) {
      PBT_CHECK(
        c, x.get_nb_of_cc() == mod.ccs.size(),
        x.get_nb_of_cc() << " coarse cells instead of " << mod.ccs.size()
      );
    },
    0
  );
  PBT_CHECK(
    c, k._ccs.size() == mod.ccs.size(),
    k._ccs.size() << " coarse cells stored instead of " << mod.ccs.size()
  );
  for (Idx x = 0; x < m.n(); ++x)
    PBT_CHECK(
      c, k._fc_2_cc[x] == f2c[x],
      "cell " << x << " is in " << (k._fc_2_cc[x] ? long(*k._fc_2_cc[x]) : -1L)
              << " instead of " << (f2c[x] ? long(*f2c[x]) : -1L)
    );
  for (size_t i = 0; i < mod.ccs.size(); ++i) {
    const auto it = k._ccs.find(i);
    PBT_CHECK(c, it != k._ccs.end(), "no coarse cell " << i);
    const auto &cc = *it->second;
    const auto &fcs = mod.ccs[i].fcs;
    with_s_fc(
      cc,
      [&](const auto &got) {
        PBT_CHECK(
          c, std::set<Idx>(got.begin(), got.end()) == fcs,
          "cells of coarse cell " << i
        );
      },
      0
    );
    PBT_CHECK(
      c, static_cast<size_t>(cc._cardinality) == fcs.size(),
      "cardinality of coarse cell " << i << " is " << cc._cardinality
    );
    with_is_isotropic(
      cc,
      [&](const auto &got) {
        PBT_CHECK(c, got == mod.ccs[i].iso, "kind of coarse cell " << i);
      },
      0
    );
    const int cpt = compactness(m, fcs);
    with_compactness(
      cc,
      [&](const auto &got) {
        PBT_CHECK(
          c, got == cpt,
          "compactness of coarse cell " << i << " is " << got << " instead of "
                                        << cpt
        );
      },
      0
    );
  }
}

void verify_neighs(Case &c, const Mesh &m, Cont &k, const Model &mod) {
  std::vector<std::optional<Idx>> f2c(m.n());
  for (size_t i = 0; i < mod.ccs.size(); ++i)
    for (auto x : mod.ccs[i].fcs) f2c[x] = i;
  for (Idx x = 0; x < m.n(); ++x) {
    bool known = true;
    std::set<Idx> exp;
    const Idx own =
      f2c[x] && !c.s.chance(1, 4) ? *f2c[x] : c.s.draw(mod.ccs.size() + 1);
    for (Idx e = m.row[x]; e < m.row[x + 1]; ++e) {
      const auto o = f2c[m.col[e]];
      if (!o) known = false;
      else if (*o != own) exp.insert(*o);
    }
    if (!known) continue;
    std::vector<Idx> got;
    if (!if_there(
          k,
          [&](auto &y) -> decltype(void(y.get_neighs_cc(x, own))) {
            for (auto z : y.get_neighs_cc(x, own)) got.push_back(z);
          },
          0
        ))
      return;
    PBT_CHECK(
      c, std::set<Idx>(got.begin(), got.end()) == exp,
      "coarse neighbours of cell " << x << " without " << own << " are "
        << show(std::vector<Idx>(got.begin(), got.end())) << " instead of "
        << show(std::vector<Idx>(exp.begin(), exp.end()))
    );
  }
}

void history(Case &c) {
  GenOpts go;
  go.max_n = c.tier ? 50 : 24;
  const Mesh m = gen_mesh(c.s, go);
  const size_t n = m.n();
  const int thresh = static_cast<int>(c.s.range(1, 4));
  auto graph = std::make_shared<comma::Dual_Graph<Idx, Real, Int>>(
    n, m.row, m.col, m.w, m.vol, m.cen, m.nbnd, m.dim, std::vector<Idx>{}
  );
  Cont k(graph, thresh);
  Model mod;
  std::vector<bool> used(n, false);
  c.say(describe(m) + " thresh=" + std::to_string(thresh));
  size_t flushes = 0, flushed = 0, aniso = 0, plain = 0;
  auto flush = [&]() {
    c.say(" flush");
    if (!if_there(
          k,
          [](auto &x) -> decltype(void(x.cc_create_all_delayed_cc())) {
            x.cc_create_all_delayed_cc();
          },
          0
        ))
      throw Abandon{"no delayed creation"};
    flushed += mod.delayed.size();
    ++flushes;
    for (auto &d : mod.delayed) mod.ccs.push_back({d, true});
    mod.delayed.clear();
    verify(c, m, k, mod);
  };
  auto grow = [&]() {
    std::vector<Idx> fr;
    for (Idx i = 0; i < n; ++i)
      if (!used[i]) fr.push_back(i);
    std::set<Idx> cc;
    if (fr.empty()) return cc;
    Idx x = fr[c.s.draw(fr.size())];
    const size_t size = 1 + c.s.draw(7);
    for (;;) {
      cc.insert(x);
      used[x] = true;
      if (cc.size() == size) break;
      fr.clear();
      for (auto y : cc)
        for (Idx e = m.row[y]; e < m.row[y + 1]; ++e)
          if (!used[m.col[e]]) fr.push_back(m.col[e]);
      if (fr.empty()) break;
      x = fr[c.s.draw(fr.size())];
    }
    return cc;
  };
  verify(c, m, k, mod);
  const bool partial = c.s.chance(1, 10);
  const size_t stop = partial ? c.s.draw(8) : n + 1;
  for (size_t step = 0; step < stop; ++step) {
    const auto cc = grow();
    if (cc.empty()) break;
    const std::unordered_set<Idx> us(cc.begin(), cc.end());
    const int cpt = compactness(m, cc);
    const int kind = static_cast<int>(c.s.draw(4));  // 0, 3: plain
    c.say(
      std::string(kind == 1 ? " delayed" : kind == 2 ? " aniso" : " plain")
      + IsoModel::show_set(cc)
    );
    if (kind == 1) {
      k.create_cc(us, cpt, false, true);
      mod.delayed.push_back(cc);
    } else {
      const Idx id = k.create_cc(us, cpt, kind == 2);
      PBT_CHECK(
        c, id == mod.ccs.size(),
        "ID " << id << " returned instead of " << mod.ccs.size()
      );
      mod.ccs.push_back({cc, kind != 2});
      (kind == 2 ? aniso : plain)++;
    }
    verify(c, m, k, mod);
    if (c.s.chance(1, 4)) verify_neighs(c, m, k, mod);
    if (c.s.chance(1, 8)) flush();
  }
  flush();
  verify_neighs(c, m, k, mod);
  c.label_if(flushes > 1, "several flushes");
  c.nontrivial = flushed > 0 && plain > 0 && (aniso > 0 || flushes > 1);
  if (std::find(used.begin(), used.end(), false) != used.end() || c.s.chance(1, 4))
    return;
  c.say(" correct");
  k.correct(static_cast<Int>(c.s.range(2, 9)));
  // the choice of the target is C06: here take the sets as they are
  Model post;
  post.ccs.resize(k._ccs.size());
  for (Idx x = 0; x < n; ++x) {
    PBT_CHECK(
      c, k._fc_2_cc[x] && *k._fc_2_cc[x] < post.ccs.size(),
      "cell " << x << " is in no stored coarse cell"
    );
    post.ccs[*k._fc_2_cc[x]].fcs.insert(x);
  }
  // anisotropic ones do not change
  for (auto &p : post.ccs) {
    p.iso = true;
    for (const auto &o : mod.ccs)
      if (!o.iso && o.fcs == p.fcs) p.iso = false;
  }
  // each one left extends one of before, in the same order; only singular ones
  // may be gone
  std::vector<bool> left(mod.ccs.size(), false);
  long last = -1;
  for (size_t j = 0; j < post.ccs.size(); ++j) {
    long who = -1;
    for (size_t o = 0; o < mod.ccs.size(); ++o) {
      const auto &f = mod.ccs[o].fcs, &g = post.ccs[j].fcs;
      if (mod.ccs[o].iso != post.ccs[j].iso
          || !std::includes(g.begin(), g.end(), f.begin(), f.end()))
        continue;
      if (!mod.ccs[o].iso || static_cast<int>(f.size()) > thresh) {
        who = o;
        if (!mod.ccs[o].iso)
          PBT_CHECK(c, f == g, "anisotropic coarse cell " << j << " changed");
        break;
      }
      if (who < 0 && static_cast<long>(o) > last) who = o;
    }
    PBT_CHECK(
      c, who > last, "coarse cell " << j << " after the correction is new or out of order"
    );
    last = who;
    left[who] = true;
  }
  for (size_t o = 0; o < mod.ccs.size(); ++o)
    PBT_CHECK(
      c,
      left[o]
        || (mod.ccs[o].iso && static_cast<int>(mod.ccs[o].fcs.size()) <= thresh),
      "coarse cell " << IsoModel::show_set(mod.ccs[o].fcs) << " lost"
    );
  verify(c, m, k, post);
  verify_neighs(c, m, k, post);
  c.label_if(post.ccs.size() < mod.ccs.size(), "coarse cells removed");
}

void run(Case &c) {
  try {
    history(c);
  } catch (const Abandon &) {
    c.label("abandoned");
  }
}
}  // namespace

const Property pbt::PROPERTY{
  "C29",
  "random graph x random history of creations of isotropic, anisotropic and "
  "delayed connected coarse cells, flushes and correction, checked after each "
  "step; non-trivial: at least one delayed and one plain coarse cell and either "
  "an anisotropic one or several flushes",
  run, 60000, 500000};
