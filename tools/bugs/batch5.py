exec(open("/verif/tools/bugs/batch2.py").read().split("BUGS = [")[0])
BUGS = [
dict(id="b67-whole-last", property="C06",
 needs="a singular coarse cell of two or more cells with two equally good neighbours",
 breaks="the neighbour with the highest ID is chosen instead of the lowest",
 edits=[(H+"Coarse_Cell_Container.h", "        if (cur_card < cur_min) {", "        if (cur_card <= cur_min) {")],
 demo=digest("    a.corr = true;\n    a.sing = 2 + r(2);\n    a.goal = a.min = a.max = 4 + r(2);\n    a.pool = r(2);", 3000, "@@")),
dict(id="b68-whole-no-gain", property="C06",
 needs="a singular coarse cell of several cells next to one whose compactness would not change",
 breaks="the singular coarse cell is moved as a whole although this improves nothing",
 edits=[(H+"Coarse_Cell_Container.h", """          if (new_cpt > n_cc->_compactness) {
            argtrue_compact.push_back(cc_idx);
          }
        }  // End compactness and cardinality
      }  // End if isotropic
    }
    if (!argtrue_compact.empty()) {""", """          if (new_cpt >= n_cc->_compactness) {
            argtrue_compact.push_back(cc_idx);
          }
        }  // End compactness and cardinality
      }  // End if isotropic
    }
    if (!argtrue_compact.empty()) {""")],
 demo=digest("    a.corr = true;\n    a.sing = 2 + r(2);\n    a.goal = a.min = a.max = 4 + r(2);\n    a.pool = r(2);", 3000, "@@")),
dict(id="b69-float-weights", property="C16",
 needs="face weights whose sum needs more than 24 bits",
 breaks="the weights of the coarse graph are rounded to single precision",
 edits=[(H+"Util.h", "    std::map<IndexT, RealT> cc_neighs;", "    std::map<IndexT, float> cc_neighs;")],
 demo=r"""
#include "CoMMA/Util.h"
int main() {
  Mesh m = make(2, 2, {{0, 1, 16777217.}}, {{0, 0}, {1, 0}});
  V ri, ci;
  std::vector<double> w, v, p;
  std::vector<std::vector<double>> x;
  std::vector<int> b;
  comma::build_coarse_graph<I, double, int>(
    V{0, 1}, m.row, m.col, m.w, m.vol, m.cen, m.prio, m.nb, ri, ci, w, v, x, p, b);
  EXPECT(w.size() == 2 && w[0] == 16777217. && w[1] == 16777217.);
}
"""),
dict(id="b70-float-priority", property="C22",
 needs="priorities that differ by less than single precision",
 breaks="such priorities count as equal and the numbers of the cells decide",
 edits=[(H+"Util.h", """    if (left.second > right.second) return true;
    if (left.second < right.second) return false;
    /* left.second == right.second */
    return left.first < right.first;""", """    const auto diff = static_cast<float>(left.second)
      - static_cast<float>(right.second);
    if (diff > 0) return true;
    if (diff < 0) return false;
    /* left.second == right.second */
    return left.first < right.first;""")],
 demo=r"""
int main() {
  Mesh m = grid(7, 5);
  Args a;
  for (I i = 0; i < m.n(); ++i) m.prio[i] = i;
  const Out o = run(m, a);
  for (I i = 0; i < m.n(); ++i) m.prio[i] = 1e9 + i;
  EXPECT(run(m, a).f2c == o.f2c);
}
"""),
dict(id="b72-py-singular", property="C24",
 needs="a Python call with correction that leaves the singular threshold out",
 breaks="the default threshold is two instead of one",
 edits=[("src/CoMMA.cpp", '    "singular_card_thresh"_a = 1,', '    "singular_card_thresh"_a = 2,')],
 demo="""#!/bin/bash
PYTHONPATH=_build exec python3 - <<'EOF'
import random
import CoMMA
random.seed(1)
differ = 0
for t in range(300):
    n = 14
    adj = [set() for _ in range(n)]
    for i in range(1, n):
        for j in {random.randrange(max(0, i - 4), i) for _ in range(2)}:
            adj[i].add(j)
            adj[j].add(i)
    row, col = [0], []
    for r in adj:
        col += sorted(r)
        row.append(len(col))
    args = [row, col, [1.] * len(col), [1.] * n,
            [[float(i % 4), float(i // 4)] for i in range(n)],
            [float(random.randrange(n)) for _ in range(n)], [],
            [random.randrange(3) for _ in range(n)], False, False, True, 4.,
            CoMMA.SeedsPool.BOUNDARY, [], [], True, 2, 4, 4, 4]
    if CoMMA.agglomerate_one_level(*args)[0] != \\
       CoMMA.agglomerate_one_level(*args, singular_card_thresh=1)[0]:
        differ += 1
assert differ == 0, differ
EOF
"""),
dict(id="b73-front-erased-once", property="C26",
 needs="pure front and a chosen cell that belongs to several of the stored fronts",
 breaks="the chosen cell remains in the older fronts and may be proposed again",
 edits=[(H+"Neighbourhood.h", "      if (it != queue.end()) queue.erase(it);\n",
         "      if (it != queue.end()) {\n        queue.erase(it);\n        break;\n      }\n")],
 demo=digest("    a.nbh = 1;\n    a.goal = a.min = a.max = 5 + r(6);\n    a.pool = r(2);", 1500, "@@", mesh="random_mesh(r, 20 + r(30), 2)")),
dict(id="b74-pair-not-compact", property="C27",
 needs="the compactness of two adjacent cells",
 breaks="it is zero instead of one",
 edits=[(H+"Dual_Graph.h", "    // Be careful: connectivity is assumed\n    if (s_fc.size() > 1) {",
         "    // Be careful: connectivity is assumed\n    if (s_fc.size() > 2) {")],
 demo=r"""
int main() {
  Mesh m = grid(4, 1);
  comma::Dual_Graph<I, double, int> g(m.n(), m.row, m.col, m.w, m.vol, m.cen, m.nb, 2, V{});
  EXPECT(g.compute_min_fc_compactness_inside_a_cc({1, 2}) == 1);
}
"""),
dict(id="b77-static-compactness", property="C34",
 needs="two calls creating coarse cells below the goal cardinality, or correcting, at the same time",
 breaks="they share one table",
 edits=[(H+"Dual_Graph.h", "    std::unordered_map<CoMMAIndexType, CoMMAIntType> dict_fc_compactness;\n    if (!s_fc.empty()) {",
         "    static std::unordered_map<CoMMAIndexType, CoMMAIntType> dict_fc_compactness;\n    dict_fc_compactness.clear();\n    if (!s_fc.empty()) {")],
 demo=r"""
#include <thread>
int main() {
  // chains of three cells
  std::vector<std::tuple<I, I, double>> e;
  std::vector<std::vector<double>> c;
  for (I i = 0; i < 900; ++i) {
    c.push_back({double(i), 0.});
    if (i % 3) e.emplace_back(i - 1, i, 1.);
  }
  Mesh m = make(2, 900, e, c);
  Args a;
  const Out ref = run(m, a);
  std::vector<std::thread> ts;
  std::vector<int> bad(8, 0);
  for (int k = 0; k < 8; ++k)
    ts.emplace_back([&, k] {
      for (int t = 0; t < 100; ++t)
        if (run(m, a).f2c != ref.f2c) bad[k] = 1;
    });
  for (auto &t : ts) t.join();
  for (int b : bad) EXPECT(!b);
}
"""),
dict(id="b79-short-queue", property="C35",
 needs="a second part with more than eight cells of the same level, none of which is queued at the beginning",
 breaks="only the best of them is queued, so the order of the next seeds differs from that of the part alone",
 edits=[(H+"Seeds_Pool.h", """    for (const auto &idx : tmp_set)
      _l_of_seeds[target].push_back(idx.first);
""", """    if (tmp_set.size() > 8) {
      // Not worth queueing everything
      tmp_set.erase(std::next(tmp_set.begin()), tmp_set.end());
    }
    for (const auto &idx : tmp_set)
      _l_of_seeds[target].push_back(idx.first);
""")],
 demo=r"""
int main() {
  // two chains of fifteen cells; only the first one has a cell with two
  // boundary faces
  Rnd r;
  for (int t = 0; t < 50; ++t) {
    std::vector<std::tuple<I, I, double>> e, f;
    std::vector<std::vector<double>> c, d;
    std::vector<int> nb, nd;
    std::vector<double> p, q;
    for (I i = 0; i < 30; ++i) {
      c.push_back({double(i), 0.});
      if (i % 15) e.emplace_back(i - 1, i, 1.);
      nb.push_back(i == 0 ? 2 : 1);
      p.push_back(r(1000));
      if (i >= 15) {
        d.push_back(c.back());
        nd.push_back(1);
        q.push_back(p.back());
        if (i > 15) f.emplace_back(i - 16, i - 15, 1.);
      }
    }
    Args a;
    a.goal = a.min = a.max = 3;
    const Out o = run(make(2, 30, e, c, nb, p), a);
    const Out u = run(make(2, 15, f, d, nd, q), a);
    for (I i = 0; i < 15; ++i)
      for (I j = 0; j < i; ++j)
        EXPECT((u.f2c[i] == u.f2c[j]) == (o.f2c[15 + i] == o.f2c[15 + j]));
  }
}
"""),
dict(id="b80-last-facet", property="C11",
 needs="the ratio of barycentre distances and a cell enclosed by the others of its coarse cell",
 breaks="the enclosed cell still counts as an outer one",
 edits=[(H+"ARComputer.h", "        new_feats._external_facets.at(face)--;\n",
         "        auto &n_ext = new_feats._external_facets.at(face);\n        if (n_ext > 1) --n_ext;\n")],
 demo=digest("    a.ar = 8;\n    a.goal = a.min = a.max = 8 + r(5);\n    for (auto &x : m.nb) x = 0;", 1500, "@@", mesh="random_mesh(r, 12 + r(30), 2)")),
dict(id="b83-end-by-number", property="C33",
 needs="a line whose ends have as many boundary faces, the one with the higher number having the higher priority",
 breaks="the number of the end cells decides where pairing starts",
 edits=[(H+"Agglomerator.h", """              (w_fr > w_bk                       // ...or greater priority...
               || (w_fr == w_bk && l_fr < l_bk)  // ..or smaller index
               ));""", """              // ...or smaller index
              (l_fr < l_bk && w_fr * w_bk != 0));""")],
 demo=r"""
int main() {
  Mesh m = grid(7, 1);
  for (auto &x : m.nb) x = 0;
  for (I i = 0; i < 7; ++i) m.prio[i] = i + 1;
  Args a;
  a.aniso = true;
  a.build = false;
  a.lidx = {0, 7};
  a.lines = all_cells(m);
  const Out o = run(m, a);
  // pairs from the end with the highest priority
  EXPECT((o.f2c == V{2, 2, 2, 1, 1, 0, 0}));
}
"""),
dict(id="b84-limit-not-kept", property="C23",
 needs="grouped arguments with a limit on the cells in line and a longer line",
 breaks="the limit is dropped",
 edits=[(H+"Args.h", "    max_cells_in_line(max_cells_in_line),\n", "")],
 demo=r"""
int main() {
  Mesh m = grid(12, 1);
  comma::GraphArgs<I, double, int> g(m.row, m.col, m.w, m.vol, m.cen, m.prio, m.nb, 2);
  comma::AgglomerationArgs<I, double, int> a(4, 4, 4, false, comma::CoMMASeedsPoolT::BOUNDARY_PRIORITY);
  const V none;
  comma::AnisotropicArgs<I, double, int> n(true, none, false, true, 4., 6);
  V f2c, li{0, 12}, l = all_cells(m);
  comma::agglomerate_one_level<I, double, int>(g, a, n, f2c, li, l);
  EXPECT(l.size() == 3);
}
"""),
dict(id="b86-far-seeds-first", property="C10",
 needs="a coarse cell with free neighbours at different distances from its seed",
 breaks="the farthest neighbours become seeds first",
 edits=[(H+"Agglomerator.h", """      std::map<CoMMAIntType, std::unordered_set<CoMMAIndexType>>
        neighs_by_order{};
      // For those""", """      std::map<
        CoMMAIntType,
        std::unordered_set<CoMMAIndexType>,
        std::greater<>>
        neighs_by_order{};
      // For those""")],
 demo=digest("    a.pool = r(2) + 10 * r(2);\n    a.goal = a.min = a.max = 3 + r(4);\n    for (auto &x : m.prio) x = r(m.n());", 800, "@@", mesh="random_mesh(r, 20 + r(30), 2)")),
dict(id="b87-orders-lost", property="C10",
 needs="a coarse cell smaller than the largest one examined",
 breaks="the distances of the cells left out are forgotten, so that they become seeds last",
 edits=[(H+"Agglomerator.h", "          d_n_of_seed[iKV.first] = iKV.second;\n", "          d_n_of_seed.erase(iKV.first);\n")],
 demo=digest("    a.pool = r(2) + 10 * r(2);\n    a.min = 2 + r(2);\n    a.goal = 4;\n    a.max = 5 + r(4);\n    for (auto &x : m.prio) x = r(m.n());", 800, "@@", mesh="random_mesh(r, 20 + r(30), 2)")),
dict(id="b88-all-at-goal", property="C10",
 needs="a seed with exactly as many reachable free cells as the goal needs, and a smaller minimum",
 breaks="all of them are taken although a smaller coarse cell is better",
 edits=[(H+"Agglomerator.h", "               < this->_goal_card) {\n      // Not enough", "               <= this->_goal_card) {\n      // Not enough")],
 demo=digest("    a.min = 2 + r(2);\n    a.goal = 5 + r(2);\n    a.max = 7 + r(4);", 1500, "@@", mesh="random_mesh(r, 20 + r(30), 2)")),
]
