// C39: the building blocks, used one by one, give what the single call gives
#include <array>

#include "common.h"
using namespace pbt;

namespace {
using Graph = comma::Dual_Graph<Idx, Real, Int>;
using Container = comma::Coarse_Cell_Container<Idx, Real, Int>;
using Pool = comma::Seeds_Pool<Idx, Real, Int>;
using BPool = comma::Seeds_Pool_Boundary_Priority<Idx, Real, Int>;
using NPool = comma::Seeds_Pool_Neighbourhood_Priority<Idx, Real, Int>;
using Aniso = comma::Agglomerator_Anisotropic<Idx, Real, Int>;
using Single = comma::Agglomerator_Biconnected<Idx, Real, Int>;
using Multi = comma::Agglomerator_Iterative<Idx, Real, Int>;
using Lines = std::vector<std::vector<Idx>>;
using OptMap = std::vector<std::optional<Idx>>;

Lines split(const std::vector<Idx> &idx, const std::vector<Idx> &cells) {
  Lines r;
  for (size_t i = 0; i + 1 < idx.size(); ++i)
    r.emplace_back(cells.begin() + idx[i], cells.begin() + idx[i + 1]);
  return r;
}

struct Steps {
  Out out;
  bool staged = false;  // anisotropic stage run
  bool lined = false;  // with lines
  bool accessor = true;  // the agglomerator gives the map, too
  size_t n_lines = 0;
  Lines before, fine, coarse;
  OptMap middle;
};

// One run over a graph.  Sizes: goal, min, max as given to the agglomerator
Steps by_hand(
  std::shared_ptr<Graph> g, const Mesh &m, const Args &a,
  const std::vector<Int> &nbnd, const std::array<int, 3> &sizes
) {
  Steps s;
  s.out.lidx = a.lidx;
  s.out.lines = a.lines;
  std::shared_ptr<Pool> pool;
  const bool one = a.pool >= 10;
  if (a.pool % 10 == 0) pool = std::make_shared<BPool>(nbnd, m.prio, one);
  else pool = std::make_shared<NPool>(nbnd, m.prio, one);
  auto cc = std::make_shared<Container>(g, static_cast<Int>(sing_eff(a)));
  if (aniso_active(a)) {
    s.staged = true;
    std::optional<Idx> ml;
    if (a.max_line) ml = static_cast<Idx>(*a.max_line);
    Aniso agg(
      g, cc, pool, static_cast<Int>(m.dim), a.thr, a.lidx, a.lines, m.prio,
      a.build_lines, a.odd, ml,
      static_cast<comma::CoMMACellCouplingT>(a.coupling), a.force_dir
    );
    s.lined = agg._should_agglomerate;
    s.n_lines = agg._nb_lines[0];
    std::vector<Idx> idx{7}, cells{7};
    agg.export_anisotropic_lines(0, idx, cells);
    s.before = split(idx, cells);
    agg.agglomerate_one_level(
      static_cast<Int>(sizes[0]), static_cast<Int>(sizes[1]),
      static_cast<Int>(sizes[2]), m.prio, false
    );
    s.middle.assign(cc->_fc_2_cc.begin(), cc->_fc_2_cc.end());
    agg.export_anisotropic_lines(0, idx, cells);
    s.fine = split(idx, cells);
    agg.export_anisotropic_lines(1, s.out.lidx, s.out.lines);
    s.coarse = split(s.out.lidx, s.out.lines);
  } else {
    pool->initialize();
  }
  std::unique_ptr<comma::Agglomerator_Isotropic<Idx, Real, Int>> agg;
  const auto ar = static_cast<comma::CoMMAAspectRatioT>(a.ar);
  const auto nbh = static_cast<comma::CoMMANeighbourhoodT>(a.nbh);
  const auto d = static_cast<Int>(m.dim);
  const auto it = static_cast<Int>(a.fc_iter);
  if (a.fc_iter > 1)
    agg = std::make_unique<Multi>(g, cc, pool, d, ar, nbh, it);
  else
    agg = std::make_unique<Single>(g, cc, pool, d, ar, nbh, it);
  agg->agglomerate_one_level(
    static_cast<Int>(sizes[0]), static_cast<Int>(sizes[1]),
    static_cast<Int>(sizes[2]), m.prio, a.corr
  );
#ifndef PBT_MINIMAL
  const auto map = agg->get_fc_2_cc();
  s.accessor = std::equal(
    map.begin(), map.end(), cc->_fc_2_cc.begin(), cc->_fc_2_cc.end()
  );
#endif
  for (const auto &x : cc->_fc_2_cc)
    s.out.f2c.push_back(x.has_value() ? *x : static_cast<Idx>(-1));
  return s;
}

void run(Case &c) {
  GenOpts go;
  go.max_n = c.tier ? 60 : 30;
  go.stretched = c.s.chance(1, 3);
  const Mesh m = gen_mesh(c.s, go);
  Args a = gen_args(c.s, m);
  // leave some of the sizes to the agglomerator
  std::array<int, 3> sizes{a.goal, a.min, a.max};
  const std::array<int, 3> usual = m.dim == 2 ? std::array<int, 3>{4, 3, 5}
                                              : std::array<int, 3>{8, 6, 10};
  bool omitted = false;
  if (c.s.chance(1, 3)) {
    const auto which = 1 + c.s.draw(7);
    std::array<int, 3> real = sizes;
    for (int k = 0; k < 3; ++k)
      if (which >> k & 1) real[k] = usual[k];
    if (real[1] <= real[0] && real[0] <= real[2]) {
      for (int k = 0; k < 3; ++k)
        if (which >> k & 1) sizes[k] = 0;
      a.goal = real[0];
      a.min = real[1];
      a.max = real[2];
      omitted = true;
    }
  }
  // the single call limits the number of boundary faces by itself
  std::vector<Int> nbnd(m.nbnd.begin(), m.nbnd.end());
  for (auto &x : nbnd) x = std::min<Int>(x, static_cast<Int>(m.dim));
  std::vector<Idx> compliant(a.compliant.begin(), a.compliant.end());
  c.say(
    describe(m) + describe(a) + " sizes given to the agglomerator (goal, min, max) "
    + show(std::vector<int>(sizes.begin(), sizes.end()))
  );
  auto g = std::make_shared<Graph>(
    m.n(), m.row, m.col, m.w, m.vol, m.cen, nbnd, static_cast<Int>(m.dim),
    compliant
  );
  const Out ref = agglomerate(m, a);
  const int runs = 1 + static_cast<int>(c.s.draw(2));
  for (int r = 0; r < runs; ++r) {
    const std::string when = r ? " (second run over the same graph)" : "";
    const Steps s = by_hand(g, m, a, nbnd, sizes);
    PBT_CHECK(
      c, s.out.f2c == ref.f2c,
      "map " << show(s.out.f2c) << " instead of " << show(ref.f2c) << when
    );
    PBT_CHECK(
      c, s.out.lidx == ref.lidx && s.out.lines == ref.lines,
      "lines " << show(s.out.lidx) << show(s.out.lines) << " instead of "
               << show(ref.lidx) << show(ref.lines) << when
    );
    PBT_CHECK(c, s.accessor, "the agglomerator gives another map" << when);
    if (!s.staged) continue;
    // the fine lines stay what they were found to be
    PBT_CHECK(
      c, s.before == s.fine, "agglomerating changed the lines of the mesh" << when
    );
    Lines longer;
    for (const auto &l : s.fine)
      if (l.size() > 1) longer.push_back(l);
    PBT_CHECK(
      c, s.lined == !s.fine.empty() && s.lined == !longer.empty(),
      "lines of the mesh: " << s.fine.size() << ", of several cells "
                            << longer.size() << ", but the agglomerator says "
                            << s.lined << when
    );
    PBT_CHECK(
      c, s.n_lines == longer.size(),
      "counted " << s.n_lines << " lines, there are " << longer.size() << when
    );
    if (!a.build_lines && s.lined) {
      Lines given = split(a.lidx, a.lines), kept;
      for (const auto &l : given)
        if (l.size() > 1) kept.push_back(l);
      PBT_CHECK(c, longer == kept, "given lines changed" << when);
    }
    PBT_CHECK(
      c, s.coarse.size() == longer.size(),
      s.coarse.size() << " coarse lines for " << longer.size() << when
    );
    // a coarse line is what became of the fine one, and nothing else is taken
    std::vector<bool> lineal(m.n(), false);
    for (size_t i = 0; i < longer.size(); ++i) {
      std::vector<Idx> img;
      bool gap = false, broken = false;
      auto walk = [&](auto b, auto e) {
        img.clear();
        gap = broken = false;
        for (auto it = b; it != e; ++it) {
          const auto &x = s.middle[*it];
          if (!x.has_value()) {
            gap = true;
            continue;
          }
          if (gap) broken = true;
          if (img.empty() || img.back() != *x) img.push_back(*x);
        }
        return img == s.coarse[i] && !broken;
      };
      const bool fwd = walk(longer[i].begin(), longer[i].end());
      PBT_CHECK(
        c, fwd || walk(longer[i].rbegin(), longer[i].rend()),
        "coarse line " << show(s.coarse[i]) << " is not the image of "
                       << show(longer[i]) << when
      );
      for (auto x : longer[i]) lineal[x] = true;
    }
    for (Idx i = 0; i < m.n(); ++i) {
      PBT_CHECK(
        c, !s.middle[i].has_value() || lineal[i],
        "cell " << i << " outside of all lines taken by the anisotropic stage"
                << when
      );
      // the isotropic stage leaves the result alone
      PBT_CHECK(
        c, !s.middle[i].has_value() || *s.middle[i] == s.out.f2c[i],
        "cell " << i << " moved out of its anisotropic coarse cell" << when
      );
    }
    c.label_if(s.lined, "lines");
    c.label_if(!a.build_lines && s.lined, "given lines");
    c.label_if(s.fine.size() != longer.size(), "lines of one cell");
  }
  std_labels(c, m, a, ref);
  c.label_if(omitted, "sizes left out");
  c.label_if(runs > 1, "graph used twice");
  c.nontrivial = ref.n_cc() > 1 && m.n() > 3;
}
}  // namespace

const Property pbt::PROPERTY{
  "C39",
  "random mesh x random arguments x sizes given or left out; the graph, the "
  "container, the pool and the agglomerators are created and run one by one, "
  "once or twice over the same graph; non-trivial: more than one coarse cell "
  "on more than three cells",
  run, 60000, 400000};
