// C28: editing a coarse-cell subgraph keeps it the induced subgraph
#include "CoMMA/Coarse_Cell.h"
#include "common.h"
#include "model.h"
using namespace pbt;

// PBT_MINIMAL: only what the tests of the library use, too (see check.py)
namespace {
using SG = comma::Subgraph<Idx, Real, Int>;
#ifndef PBT_MINIMAL
using CCS = comma::Coarse_Cell_Subgraph<Idx, Real, Int>;
#endif
using DG = comma::Dual_Graph<Idx, Real, Int>;

// neighbours of a global cell and the weights, in graph order
void neighs_of(
  const Mesh &m, Idx c, std::vector<Idx> &nb, std::vector<Real> &w
) {
  nb.assign(m.col.begin() + m.row[c], m.col.begin() + m.row[c + 1]);
  w.assign(m.w.begin() + m.row[c], m.w.begin() + m.row[c + 1]);
}

void verify(Case &c, const Mesh &m, SG &g, const std::set<Idx> &cells) {
  const auto &map = g._mapping_l_to_g;
  PBT_CHECK(
    c,
    std::set<Idx>(map.begin(), map.end()) == cells && map.size() == cells.size(),
    "cells of the subgraph " << show(std::vector<Idx>(map.begin(), map.end()))
  );
  PBT_CHECK(
    c, static_cast<size_t>(g._cardinality) == cells.size(),
    "cardinality " << g._cardinality << " instead of " << cells.size()
  );
  PBT_CHECK(
    c, g._volumes.size() == cells.size(), "volumes of " << g._volumes.size()
  );
  int comp = static_cast<int>(cells.size());
  for (Idx l = 0; l < map.size(); ++l) {
    const Idx x = map[l];
    std::map<Idx, Real> exp;
    for (Idx e = m.row[x]; e < m.row[x + 1]; ++e)
      if (cells.count(m.col[e])) exp[m.col[e]] = m.w[e];
    const auto nb = g.get_neighbours(l);
#ifndef PBT_MINIMAL
    const auto w = g.get_weights(l);
#else
    const std::vector<Real> w(
      g._m_CRS_Values.begin() + g._m_CRS_Row_Ptr[l],
      g._m_CRS_Values.begin() + g._m_CRS_Row_Ptr[l + 1]
    );
#endif
    PBT_CHECK(
      c, nb.size() == exp.size() && w.size() == exp.size(),
      "cell " << x << " has " << nb.size() << " neighbours and " << w.size()
              << " weights instead of " << exp.size()
    );
    for (size_t k = 0; k < nb.size(); ++k) {
      PBT_CHECK(
        c, nb[k] < map.size(), "neighbour " << nb[k] << " out of range"
      );
      const auto it = exp.find(map[nb[k]]);
      PBT_CHECK(
        c, it != exp.end() && it->second == w[k],
        "edge " << x << "-" << map[nb[k]] << " has weight " << w[k]
                << " instead of " << (it == exp.end() ? 0. : it->second)
      );
      exp.erase(it);
    }
    PBT_CHECK(
      c, g._volumes[l] == m.vol[x],
      "volume of " << x << " is " << g._volumes[l] << " instead of " << m.vol[x]
    );
    comp = std::min(comp, static_cast<int>(nb.size()));
  }
  if (cells.size() > 1)
    with_compactness(
      g,
      [&](const auto &got) {
        PBT_CHECK(
          c, got == comp, "compactness " << got << " instead of " << comp
        );
      },
      0
    );
}
void verify_connected(Case &c, const Mesh &m, SG &g, const std::set<Idx> &cells) {
  if (cells.empty()) return;
  const bool exp = is_connected(m, std::vector<Idx>(cells.begin(), cells.end()));
  const bool got = g.check_connectivity();
  PBT_CHECK(c, got == exp, "connected: " << got << " instead of " << exp);
}

void run(Case &c) {
  GenOpts go;
  go.max_n = c.tier ? 40 : 24;
  const Mesh m = gen_mesh(c.s, go);
  const Idx n = m.n();
  std::set<Idx> cells;
  // a connected patch or any set
  const size_t want = 1 + c.s.draw(std::min<Idx>(n, 9));
  Idx x = c.s.draw(n);
  cells.insert(x);
  while (cells.size() < want) {
    if (m.deg(x) && !c.s.chance(1, 6))
      x = m.col[m.row[x] + c.s.draw(m.deg(x))];
    else
      x = c.s.draw(n);
    cells.insert(x);
    if (c.s.chance(1, 20)) break;
  }
  std::shared_ptr<SG> g;
#ifndef PBT_MINIMAL
  std::unique_ptr<CCS> cc;
  const bool plain = c.s.coin();
#else
  const bool plain = true;
#endif
  c.say(
    describe(m) + " cells " + show(std::vector<Idx>(cells.begin(), cells.end()))
  );
  if (plain) {
    std::vector<Idx> map(cells.begin(), cells.end()), row{0}, col;
    c.s.shuffle(map);
    std::vector<Real> w, vol;
    for (auto k : map) {
      for (Idx e = m.row[k]; e < m.row[k + 1]; ++e) {
        const auto it = std::find(map.begin(), map.end(), m.col[e]);
        if (it == map.end()) continue;
        col.push_back(it - map.begin());
        w.push_back(m.w[e]);
      }
      row.push_back(col.size());
      vol.push_back(m.vol[k]);
    }
    g = std::make_shared<SG>(map.size(), row, col, w, vol, map, c.s.coin());
    c.label("subgraph");
  }
#ifndef PBT_MINIMAL
  else {
    const std::unordered_set<Idx> us(cells.begin(), cells.end());
    const auto graph = std::make_shared<DG>(
      n, m.row, m.col, m.w, m.vol, m.cen, m.nbnd, m.dim, std::vector<Idx>{}
    );
    cc = std::make_unique<CCS>(
      graph, 0, us, compactness(m, cells), c.s.coin()
    );
    g = cc->_cc_graph;
    c.label("coarse cell with subgraph");
  }
#endif
  verify(c, m, *g, cells);
  verify_connected(c, m, *g, cells);
  size_t ins = 0, del = 0, outside = 0;
  const size_t steps = 1 + c.s.draw(8);
  for (size_t k = 0; k < steps; ++k) {
    if (cells.size() > 1 && c.s.chance(2, 5)) {
      auto it = cells.begin();
      std::advance(it, c.s.draw(cells.size()));
      const Idx v = *it;
      c.say(" remove " + std::to_string(v));
      g->remove_node(v);
      cells.erase(v);
      ++del;
    } else {
      std::vector<Idx> fr;
      for (auto y : cells)
        for (Idx e = m.row[y]; e < m.row[y + 1]; ++e)
          if (!cells.count(m.col[e])) fr.push_back(m.col[e]);
      Idx v = c.s.draw(n);
      if (!fr.empty() && !c.s.chance(1, 6)) v = fr[c.s.draw(fr.size())];
      if (cells.count(v)) continue;
      c.say(" insert " + std::to_string(v));
      std::vector<Idx> nb;
      std::vector<Real> w;
      neighs_of(m, v, nb, w);
      for (auto y : nb) outside += !cells.count(y);
#ifndef PBT_MINIMAL
      if (cc && c.s.coin()) {
        cells.insert(v);
        std::unordered_set<Idx> more{v};
        while (c.s.chance(1, 4)) {
          const Idx x = c.s.draw(n);
          if (cells.insert(x).second) {
            more.insert(x);
            c.say(" and " + std::to_string(x));
          }
        }
        cc->update_connectivity();
        if (more.size() == 1 && c.s.coin()) cc->insert_cell(v, std::nullopt);
        else if (c.s.coin()) cc->insert_cells(more, compactness(m, cells));
        else cc->insert_cells(more, std::nullopt);
        c.label_if(more.size() > 1, "several cells at once");
        // what is said to be up to date is
        const bool conn =
          is_connected(m, std::vector<Idx>(cells.begin(), cells.end()));
        PBT_CHECK(
          c, !cc->_is_connectivity_up_to_date || cc->_is_connected == conn,
          "connectivity not updated by an insertion, but said to be up to date"
        );
        cc->update_connectivity();
        PBT_CHECK(
          c, cc->_is_connectivity_up_to_date && cc->_is_connected == conn,
          "connected: " << cc->_is_connected << " instead of " << conn
        );
      } else
#endif
      {
        if (c.s.coin()) {  // only the neighbours in the coarse cell
          size_t j = 0;
          for (size_t i = 0; i < nb.size(); ++i)
            if (cells.count(nb[i])) {
              nb[j] = nb[i];
              w[j++] = w[i];
            }
          nb.resize(j);
          w.resize(j);
        }
        g->insert_node(nb, v, m.vol[v], w);
        cells.insert(v);
      }
      ++ins;
    }
    verify(c, m, *g, cells);
    if (!c.s.chance(1, 3)) verify_connected(c, m, *g, cells);
  }
  c.nontrivial = ins > 0 && del > 0 && cells.size() > 1;
  c.label_if(outside > 0, "neighbours outside of the coarse cell");
}
}  // namespace

const Property pbt::PROPERTY{
  "C28",
  "random set of cells of a random graph x random sequence of up to eight "
  "insertions and removals; non-trivial: at least one insertion, one removal "
  "and two cells left",
  run, 100000, 1000000};
