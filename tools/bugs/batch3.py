exec(open("/verif/tools/bugs/batch2.py").read().split("BUGS = [")[0])
BUGS = [
dict(id="b20-renumber-next", property="C01",
 needs="correction whose first two removed coarse cells have consecutive IDs, followed by surviving ones",
 breaks="renumbering looks for the cell just after the first removed one, does not find it and leaves gaps in the coarse IDs",
 edits=[(H+"Coarse_Cell_Container.h", """        it_cc = _ccs.find(new_ID - 1);
        ++it_cc;""", """        it_cc = _ccs.find(new_ID + 1);""")],
 demo=r"""
int main() {
  Rnd r;
  for (int t = 0; t < 3000; ++t) {
    Mesh m = random_mesh(r, 12 + r(40));
    for (auto &x : m.nb) x = std::min(x, 2);
    Args a;
    a.corr = true;
    a.goal = a.min = a.max = 3;
    a.pool = r(2) ? 1 : 0;
    const Out o = run(m, a);
    std::set<I> ids(o.f2c.begin(), o.f2c.end());
    EXPECT(*ids.rbegin() + 1 == ids.size());
  }
}
"""),
dict(id="b23-front-lost", property="C08",
 needs="a coarse cell reaching the limit of the gathered neighbourhood, so that it has neighbours beyond it",
 breaks="these neighbours do not enter the front and seeding jumps elsewhere",
 edits=[(H+"Agglomerator.h", """      if (!neighs_not_found.empty())
        this->_seeds_pool->order_new_seeds_and_update(neighs_not_found);
""", """      if (neighs_by_order.empty() && !neighs_not_found.empty())
        this->_seeds_pool->order_new_seeds_and_update(neighs_not_found);
""")],
 demo=digest("    a.pool = 11;\n    a.goal = a.min = a.max = 3 + r(4);", 400, "@@")),
dict(id="b24-merge-levels", property="C09",
 needs="neighbourhood pool receiving at once seeds of two different levels above the current one",
 breaks="seeds above the current level are no longer ordered by boundary faces",
 edits=[(H+"Seeds_Pool.h", """    for (const auto &seed : new_seeds) {
      new_seeds_by_bnd[this->_n_bnd_faces[seed]].emplace(
        seed""", """    for (const auto &seed : new_seeds) {
      const auto n_faces = this->_cur_top_queue.has_value()
        ? std::min(this->_n_bnd_faces[seed], this->_cur_top_queue.value())
        : this->_n_bnd_faces[seed];
      new_seeds_by_bnd[n_faces].emplace(
        seed""")],
 demo=r"""
int main() {
  std::vector<int> nb{1, 3, 2, 1};
  std::vector<double> w{4, 2, 3, 1};
  comma::Seeds_Pool_Neighbourhood_Priority<I, double, int> p(nb, w, true);
  p.set_top_queue(1);
  p.order_new_seeds_and_update({1, 2, 3});
  std::vector<bool> done(4, false);
  EXPECT(p.choose_new_seed(done).value() == 1);
}
"""),
dict(id="b25-seed-facets", property="C11",
 needs="ratio of barycentre distances, seed on the boundary whose neighbours all belong to the coarse cell",
 breaks="boundary faces of the seed are forgotten, so it no longer counts as an outer cell",
 edits=[(H+"ARComputer.h", "_external_facets({{index, graph->get_total_n_faces(index)}})", "_external_facets({{index, graph->get_nb_of_neighbours(index)}})")],
 demo=digest("    a.ar = 8;\n    a.goal = 5;\n    a.max = 8;\n    a.min = 4;", 1000, "@@")),
dict(id="b26-other-end-reuse", property="C12",
 needs="a line extended at its other end through a face of low coupling that keeps the direction",
 breaks="the cell stays available and may be put in a second line",
 edits=[(H+"Agglomerator.h", """              if (!opposite_direction_check) {
                cur_line->push_back(seed);
              } else {
                cur_line->push_front(seed);
              }
              to_treat[seed] = false;
              empty_line""", """              if (!opposite_direction_check) {
                cur_line->push_back(seed);
                to_treat[seed] = false;
              } else {
                cur_line->push_front(seed);
              }
              empty_line""")],
 demo=r"""
int main() {
  Rnd r;
  for (int t = 0; t < 400; ++t) {
    Mesh m = grid(6 + r(4), 3 + r(3), 1, 1, 0.25);
    // uneven weights
    for (I i = 0; i < m.n(); ++i)
      for (I e = m.row[i]; e < m.row[i + 1]; ++e)
        if (m.col[e] > i) {
          m.w[e] = 1 + r(16);
          for (I f = m.row[m.col[e]]; f < m.row[m.col[e] + 1]; ++f)
            if (m.col[f] == i) m.w[f] = m.w[e];
        }
    for (auto &p : m.prio) p = r(50);
    Args a;
    a.aniso = true;
    a.thr = -1;
    a.compliant = all_cells(m);
    const Out o = run(m, a);
    std::vector<V> cc = o.ccs();
    for (I k = 0; k < o.lines.size(); ++k)
      EXPECT(cc[o.lines[k]].size() == 2 || cc[o.lines[k]].size() == 3);
  }
}
"""),
dict(id="b27-drop-short-lines", property="C12",
 needs="several lines, one of them reduced to a single coarse cell",
 breaks="lines with one coarse cell are not exported although the coarse cell is anisotropic",
 edits=[(H+"Agglomerator.h", """        aniso_lines_idx.push_back(line_size + idx);
""", """        if (line_size == 1 && this->_v_lines[level].size() > 1) continue;
        aniso_lines_idx.push_back(line_size + idx);
""")],
 demo=r"""
int main() {
  Mesh m = grid(8, 1);
  Args a;
  a.aniso = true;
  a.build = false;
  a.lidx = {0, 2, 6};
  a.lines = {6, 7, 0, 1, 2, 3};
  const Out o = run(m, a);
  EXPECT((o.lidx == V{0, 1, 3}));
}
"""),
dict(id="b28-static-start", property="C20",
 needs="two calls on meshes of the same size, the first seed of the second call taking cell 0",
 breaks="the first free cell remembered from the previous call is reused, so free cells before it are not seen",
 edits=[(H+"Seeds_Pool.h", """    std::optional<CoMMAIntType> max_bnd = std::nullopt;
    for (auto i_fc = decltype(_n_bnd_faces.size()){0};
         i_fc < _n_bnd_faces.size();
         ++i_fc) {
      if (!is_fc_agglomerated[i_fc]) {
        const auto i_fc_bnd""", """    std::optional<CoMMAIntType> max_bnd = std::nullopt;
    // Agglomerated cells never become free again, start from the first free one
    static thread_local std::size_t first_free = 0, known_size = 0;
    if (known_size != is_fc_agglomerated.size()
        || !is_fc_agglomerated[0]
        || !is_fc_agglomerated[first_free - 1]) {
      first_free = 1;
      known_size = is_fc_agglomerated.size();
    }
    while (first_free < known_size && is_fc_agglomerated[first_free])
      ++first_free;
    for (auto i_fc = is_fc_agglomerated[0] ? first_free : 0;
         i_fc < _n_bnd_faces.size();
         ++i_fc) {
      if (!is_fc_agglomerated[i_fc]) {
        const auto i_fc_bnd""")],
 demo=r"""
int main() {
  Rnd r;
  std::vector<Mesh> ms;
  for (int t = 0; t < 40; ++t) {
    ms.push_back(random_mesh(r, 20));
    for (auto &x : ms.back().nb) x = std::min(x, 2);
  }
  std::map<std::pair<int, int>, V> res;
  for (int t = 0; t < 4000; ++t) {
    const int i = r(40), p = r(2);
    Args a;
    a.goal = a.min = a.max = 3;
    a.pool = p;
    V out;
    try {
      out = run(ms[i], a).f2c;
    } catch (const std::exception &) {
    }
    EXPECT(!out.empty());
    if (!res.count({i, p})) res[{i, p}] = out;
    EXPECT((res[{i, p}] == out));
  }
}
"""),
dict(id="b31-few-queues", property="C25",
 needs="anisotropic stage leaving no free neighbour on a mesh where no cell has three boundary faces",
 breaks="queues are allocated for the levels present only and the emptiness test reads past them",
 edits=[(H+"Seeds_Pool.h", "    _l_of_seeds = std::vector<CoMMAQueueType>(CoMMACellT::N_CELL_TYPES);",
  "    _l_of_seeds = std::vector<CoMMAQueueType>(\n      *std::max_element(n_bnd_faces.begin(), n_bnd_faces.end()) + 1\n    );")],
 demo=r"""#!/bin/bash
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
cat > "$out/d.cpp" <<'EOF'
#include "CoMMA/CoMMA.h"
int main() {
  std::vector<unsigned long> row{0, 1, 2, 3, 4}, col{1, 0, 3, 2}, idx{0, 2}, lines{0, 1}, f2c;
  std::vector<double> w(4, 1.), vol(4, 1.), prio{5, 4, 3, 2};
  std::vector<std::vector<double>> cen{{0, 0}, {1, 0}, {2, 0}, {3, 0}};
  std::vector<int> nb{1, 0, 0, 1};
  comma::agglomerate_one_level<unsigned long, double, int>(
    row, col, w, vol, cen, prio, {}, nb, false, true, true, 4.,
    comma::CoMMASeedsPoolT::BOUNDARY_PRIORITY, f2c, idx, lines, false, 2, 2, 2, 2);
}
EOF
g++ -std=c++17 -w -O0 -g -fsanitize=address -D_GLIBCXX_ASSERTIONS -I include -I _build/include "$out/d.cpp" -o "$out/d" || exit 3
ASAN_OPTIONS=detect_leaks=0 "$out/d" > "$out/log" 2>&1
code=$?
tail -3 "$out/log"
exit $code
"""),
dict(id="b33-last-cell-unseen", property="C28",
 needs="a subgraph whose only disconnected cell is the last one inserted",
 breaks="the connectivity test does not look at the last cell",
 edits=[(H+"Dual_Graph.h", "for (auto i = decltype(_number_of_cells){0}; i < _number_of_cells; ++i) {\n      if (!_visited[i])",
   "for (auto i = decltype(_number_of_cells){0}; i + 1 < _number_of_cells; ++i) {\n      if (!_visited[i])")],
 demo=r"""
int main() {
  comma::Subgraph<I, double, int> g(
    3, {0, 1, 2, 2}, {1, 0}, {1., 1.}, {1., 1., 1.}, {4, 5, 9}, true);
  EXPECT(!g.check_connectivity());
}
"""),
dict(id="b35-last-not-counted", property="C29",
 needs="correction removing the coarse cell with the highest ID",
 breaks="the number of coarse cells stays too large",
 edits=[(H+"Coarse_Cell_Container.h", """          _ccs.erase(old_cc);
          removed_cc.emplace(old_cc);""", """          // The last one needs no renumbering
          if (_ccs.erase(_ccs.find(old_cc)) != _ccs.end())
            removed_cc.emplace(old_cc);""")],
 demo=r"""
int main() {
  Mesh m = grid(5, 1);
  auto g = std::make_shared<comma::Dual_Graph<I, double, int>>(
    m.n(), m.row, m.col, m.w, m.vol, m.cen, m.nb, 2, V{});
  comma::Coarse_Cell_Container<I, double, int> c(g, 1);
  c.create_cc({0, 1}, 1);
  c.create_cc({2, 3}, 1);
  c.create_cc({4}, 0);
  c.correct(2);
  EXPECT(c.get_nb_of_cc() == 2);
}
"""),
dict(id="b39-long-lines-ok", property="C19",
 needs="provided lines whose offsets go past the end of the list",
 breaks="provided lines with missing cells are accepted and read out of bounds",
 edits=[(H+"CoMMA.h", """      } else if (agglomerationLines_Idx.back()
                 != static_cast""", """      } else if (agglomerationLines_Idx.back()
                 < static_cast""")],
 demo=r"""
int main() {
  Mesh m = grid(8, 1);
  Args a;
  a.aniso = true;
  a.build = false;
  a.lidx = {0, 4};
  a.lines = {0, 1, 2};
  a.lines.reserve(8);
  bool thrown = false;
  try { run(m, a); } catch (const std::invalid_argument &) { thrown = true; }
  EXPECT(thrown);
}
"""),
dict(id="b44-turn-back", property="C13",
 needs="a hairpin: no neighbour of high coupling and an unused one of low coupling lying straight behind the end of the line",
 breaks="a line may fold back on itself through a face of low coupling",
 edits=[(H+"Agglomerator.h", "        if (dot > 0 && !dot_deviate", "        if ((dot > 0 || !check_weight) && !dot_deviate")],
 demo=r"""
int main() {
  // 0 and 1 along x; 2 is attached to 1 but lies behind 0
  std::vector<std::tuple<I, I, double>> e{{0, 1, 10}, {1, 2, 4}, {2, 3, 1}};
  Mesh m = make(2, 4, e, {{0, 0}, {1, 0}, {-1, 0.0625}, {-1, 5}});
  Args a;
  a.aniso = true;
  a.thr = -1;
  a.compliant = {0, 1, 2};
  a.goal = a.min = a.max = 2;
  const Out o = run(m, a);
  EXPECT((o.lidx == V{0, 1}));
  EXPECT(o.f2c[2] != o.f2c[0]);
}
"""),
dict(id="b46-still-singular", property="C06",
 needs="a singular coarse cell of the largest singular size that received another singular cell before its turn",
 breaks="a coarse cell that is no longer singular is dissolved all the same",
 edits=[(H+"Coarse_Cell_Container.h", "      if (cur_cc->_cardinality <= _sing_card_thresh) {",
   "      if (cur_cc->_cardinality <= _sing_card_thresh\n          || cur_cc->_compactness < 2) {")],
 demo=digest("    a.corr = true;\n    a.goal = a.min = a.max = 3;\n    a.sing = 1 + r(2);\n    a.pool = r(2);", 2000, "@@")),
]
