H = "include/CoMMA/"
# Runs the same random calls and compares a digest with the one of the
# unchanged library.
def digest(setup, n, expect, mesh="random_mesh(r, 12 + r(30), 2 + r(2))", extra=""):
    return r"""
int main() {
  Rnd r;
  unsigned long h = 7;
  for (int t = 0; t < %d; ++t) {
    Mesh m = %s;
    for (auto &x : m.nb) x = std::min(x, m.dim);
    Args a;
%s
    const Out o = run(m, a);
    h = digest(o.f2c, h);
    h = digest(o.lidx, h);
    h = digest(o.lines, h);
  }
  printf("%%lu\n", h);
  EXPECT(h == %sUL);
%s}
""" % (n, mesh, setup, expect, extra)

BUGS = [
dict(id="b20-renumber-last", property="C01",
 needs="correction removing at least two singular coarse cells whose IDs are not consecutive",
 breaks="coarse IDs are no longer contiguous or two coarse cells get the same ID",
 edits=[(H+"Coarse_Cell_Container.h", "auto new_ID = *(removed_cc.begin());",
  "auto new_ID = static_cast<CoMMAIndexType>(\n        *(removed_cc.rbegin()) + 1 - removed_cc.size()\n      );")],
 demo=r"""
int main() {
  Rnd r;
  for (int t = 0; t < 3000; ++t) {
    Mesh m = random_mesh(r, 12 + r(40));
    for (auto &x : m.nb) x = std::min(x, 2);
    Args a;
    a.corr = true;
    a.goal = a.min = a.max = 3;
    a.pool = r(2) ? 1 : 0;
    const Out o = run(m, a);
    std::set<I> ids(o.f2c.begin(), o.f2c.end());
    EXPECT(*ids.rbegin() + 1 == ids.size());
    Args b = a;
    b.corr = false;
    const Out p = run(m, b);
    for (I i = 0; i < m.n(); ++i)
      for (I j = 0; j < i; ++j)
        if (p.f2c[i] != p.f2c[j] && o.f2c[i] == o.f2c[j]) {
          I ni = std::count(p.f2c.begin(), p.f2c.end(), p.f2c[i]);
          I nj = std::count(p.f2c.begin(), p.f2c.end(), p.f2c[j]);
          EXPECT(ni == 1 || nj == 1);
        }
  }
}
"""),
dict(id="b21-whole-into-line", property="C03",
 needs="correction with singular threshold above one and a small coarse cell next to an anisotropic one",
 breaks="a whole singular coarse cell is merged into a coarse cell of an anisotropic line",
 edits=[(H+"Coarse_Cell_Container.h", """      if (n_cc->_is_isotropic) {
        // NOLINTNEXTLINE(readability-simplify-boolean-expr)
        if (true /* n_cc->_cardinality < max_card */) {
          // On second thought, let us consider also cells with max cardinality
          // since the number of faces could be important to ensure compactness
          // of the coarse cell
          card[cc_idx] = n_cc->_cardinality;
          // Analysing compactness
          auto tmp_cc = n_cc->_s_fc;  // OK copy
          tmp_cc.insert(fcs""", """      {
        // NOLINTNEXTLINE(readability-simplify-boolean-expr)
        if (true /* n_cc->_cardinality < max_card */) {
          // On second thought, let us consider also cells with max cardinality
          // since the number of faces could be important to ensure compactness
          // of the coarse cell
          card[cc_idx] = n_cc->_cardinality;
          // Analysing compactness
          auto tmp_cc = n_cc->_s_fc;  // OK copy
          tmp_cc.insert(fcs""")],
 demo=r"""
int main() {
  Mesh m = grid(2, 3);
  Args a;
  a.aniso = true;
  a.build = false;
  a.lidx = {0, 2};
  a.lines = {0, 1};
  a.goal = a.min = a.max = 3;
  a.sing = 2;
  a.nbh = 0;
  a.corr = true;
  // cells 4 and 5 are cut off from 2 and 3
  m = make(2, 4, {{0, 1, 1}, {0, 2, 1}, {1, 3, 1}, {2, 3, 1}},
           {{0, 0}, {1, 0}, {0, 1}, {1, 1}});
  const Out o = run(m, a);
  print("f2c", o.f2c);
  EXPECT(std::count(o.f2c.begin(), o.f2c.end(), o.f2c[0]) == 2);
}
"""),
dict(id="b22-ridge-is-enough", property="C07",
 needs="3D mesh, boundary priority after an anisotropic stage, cells with two and three boundary faces left",
 breaks="the pool restarts from cells with two boundary faces although a cell with three is still free",
 edits=[(H+"Seeds_Pool.h", """    const auto max_bnd =
      this->get_highest_n_bnd_yet_to_agglomerate(is_agglomerated);
    if (max_bnd""", """    const auto max_bnd = this->get_highest_n_bnd_yet_to_agglomerate(
      is_agglomerated, CoMMACellT::RIDGE
    );
    if (max_bnd""")],
 demo=digest("""    a.aniso = true;
    a.build = false;
    a.pool = 0;
    a.lidx = {0, 2};
    a.lines = {m.col[m.row[3]], 3};""", 400, "@@", mesh="random_mesh(r, 14 + r(30), 3)")),
dict(id="b23-front-level-kept", property="C08",
 needs="neighbourhood priority where the queue of the current level is exhausted and a lower one is used",
 breaks="the level of the queue being emptied is not lowered, so later front cells overtake older ones",
 edits=[(H+"Seeds_Pool.h", """          this->_cur_top_queue = distance(queue, this->_l_of_seeds.rend()) - 1;
""", "")],
 demo=digest("    a.pool = 1;", 300, "@@")),
dict(id="b24-update-level", property="C09",
 needs="neighbourhood pool updated by hand with cells having more boundary faces than the current level",
 breaks="new seeds are queued above the level being emptied",
 edits=[(H+"Seeds_Pool.h", "        ? std::min(this->_n_bnd_faces[seed], this->_cur_top_queue.value())",
  "        ? this->_n_bnd_faces[seed] % (this->_cur_top_queue.value() + 1)")],
 demo=r"""
int main() {
  std::vector<int> nb{1, 3, 2, 1};
  std::vector<double> w{4, 3, 2, 1};
  comma::Seeds_Pool_Neighbourhood_Priority<I, double, int> p(nb, w, true);
  p.set_top_queue(1);
  p.update({3, 2, 0});
  std::vector<bool> done(4, false);
  EXPECT(p.choose_new_seed(done).value() == 3);
  done[3] = true;
  EXPECT(p.choose_new_seed(done).value() == 2);
  done[2] = true;
  EXPECT(p.choose_new_seed(done).value() == 0);
}
"""),
dict(id="b25-min-edge-skipped", property="C11",
 needs="growth history whose shortest distance is also the longest one when it appears",
 breaks="the distance that is currently the largest is never taken as minimum edge",
 edits=[(H+"ARComputer.h", "      if (dist < min_edge) min_edge = dist;", "      if (dist < min_edge && dist < max_diam) min_edge = dist;")],
 demo=digest("    a.ar = 1;\n    a.goal = 4;\n    a.max = 6;\n    a.min = 3;", 300, "@@")),
dict(id="b26-fallback-reuse", property="C12",
 needs="a line extended through a face of low coupling that keeps the direction, next to another line",
 breaks="the cell stays available and may be put in a second line",
 edits=[(H+"Agglomerator.h", """                cur_line->push_front(seed);
              }
              to_treat[seed] = false;
              empty_line = false;""", """                cur_line->push_front(seed);
              }
              empty_line = false;""")],
 demo=r"""
int main() {
  Rnd r;
  for (int t = 0; t < 400; ++t) {
    Mesh m = grid(6 + r(4), 3 + r(3), 1, 1, 0.25);
    // uneven weights
    for (I i = 0; i < m.n(); ++i)
      for (I e = m.row[i]; e < m.row[i + 1]; ++e)
        if (m.col[e] > i) {
          m.w[e] = 1 + r(16);
          for (I f = m.row[m.col[e]]; f < m.row[m.col[e] + 1]; ++f)
            if (m.col[f] == i) m.w[f] = m.w[e];
        }
    for (auto &p : m.prio) p = r(50);
    Args a;
    a.aniso = true;
    a.thr = -1;
    a.compliant = all_cells(m);
    const Out o = run(m, a);
    std::vector<V> cc = o.ccs();
    for (I k = 0; k < o.lines.size(); ++k)
      EXPECT(cc[o.lines[k]].size() == 2 || cc[o.lines[k]].size() == 3);
  }
}
"""),
dict(id="b27-one-line-none", property="C15",
 needs="a level whose lines reduce to a single one fed back as provided lines",
 breaks="a single provided line is ignored",
 edits=[(H+"CoMMA.h", "if (agglomerationLines_Idx.size() < 2 || agglomerationLines.empty()) {",
         "if (agglomerationLines_Idx.size() <= 2 || agglomerationLines.empty()) {")],
 demo=r"""
int main() {
  Mesh m = grid(8, 1);
  Args a;
  a.aniso = true;
  a.build = false;
  a.lidx = {0, 8};
  a.lines = {0, 1, 2, 3, 4, 5, 6, 7};
  const Out o = run(m, a);
  EXPECT((o.lidx == V{0, 4}));
}
"""),
dict(id="b28-static-ratio", property="C20",
 needs="anisotropic calls in two and three dimensions in the same process, with ratios between the threshold and its square",
 breaks="the anisotropy measure of the first call of the process is used for all later ones",
 edits=[(H+"Dual_Graph.h", """    _compute_AR = dimension == 2
      ? [](""", """    static const decltype(_compute_AR) ratio_fct = dimension == 2
      ? decltype(_compute_AR)([]("""),
   (H+"Dual_Graph.h", "        ) -> CoMMAWeightType { return max_s / min_s; }\n", "        ) -> CoMMAWeightType { return max_s / min_s; })\n"),
   (H+"Dual_Graph.h", """    : [](
        const""", """    : decltype(_compute_AR)([](
        const"""),
   (H+"Dual_Graph.h", "{ return sqrt(max_s / min_s); };\n", "{ return sqrt(max_s / min_s); });\n    _compute_AR = ratio_fct;\n"),
 ],
 demo=r"""
int main() {
  Mesh m = grid(4, 4, 4, 1, 1, 0.125);
  Args a;
  a.aniso = true;
  a.compliant = all_cells(m);
  a.thr = 4;
  a.goal = a.min = a.max = 8;
  Mesh q = grid(4, 4, 1, 1, 0.125);
  Args b = a;
  b.compliant = all_cells(q);
  run(q, b);
  const Out o = run(m, a);
  EXPECT(o.lidx.empty());
}
"""),
dict(id="b29-distance-guard", property="C22",
 needs="lines built by distance on a mesh whose spacing is very small",
 breaks="the guard against a null distance is absolute, so small meshes lose their anisotropy",
 edits=[(H+"Dual_Graph.h", """            CoMMAWeightType max_ov_dist = 0.0;
            for (; n_it != this->neighbours_cend(i_fc); ++n_it, ++w_it) {
              const auto dist = 1.
                / squared_euclidean_distance<CoMMAWeightType>(
                                  this->_centers[i_fc], this->_centers[*n_it]
                );""", """            CoMMAWeightType max_ov_dist = 0.0;
            for (; n_it != this->neighbours_cend(i_fc); ++n_it, ++w_it) {
              const auto dist = 1.
                / std::max<CoMMAWeightType>(
                                  1e-12,
                                  squared_euclidean_distance<CoMMAWeightType>(
                                    this->_centers[i_fc], this->_centers[*n_it]
                                  )
                );""")],
 demo=r"""
int main() {
  V f2c;
  for (double s : {1., 0x1p-24}) {
    Mesh m = grid(6, 6, 1, s, s / 8);
    Args a;
    a.aniso = true;
    a.compliant = all_cells(m);
    a.coupling = 1;
    a.dir = false;
    const Out o = run(m, a);
    if (f2c.empty()) f2c = o.f2c;
    EXPECT(f2c == o.f2c);
  }
}
"""),
dict(id="b30-py-direction", property="C24",
 needs="call from Python with the line direction given explicitly and direction and look-ahead differing",
 breaks="forcing the direction also depends on the look-ahead",
 edits=[("src/CoMMA.cpp", "        force_line_direction,\n        fc_choice_iter,", "        force_line_direction || aniso_cell_coupling == CoMMACellCouplingT::MIN_DISTANCE,\n        fc_choice_iter,")],
 demo=r"""#!/bin/bash
PYTHONPATH=_build exec python3 - <<'EOF'
import CoMMA
# 3 x 3 cells; the diagonal step is only allowed with a free direction
n = 5
edges = {(0, 1): 10., (1, 2): 10., (2, 3): 10., (3, 4): 1.}
cen = [[0., 0.], [1., 0.], [1., 1.], [0., 1.], [9., 9.]]
adj = [[] for _ in range(n)]
for (a, b), w in edges.items():
    adj[a].append((b, w))
    adj[b].append((a, w))
row, col, val = [0], [], []
for r in adj:
    for c, w in sorted(r):
        col.append(c)
        val.append(w)
    row.append(len(col))
out = CoMMA.agglomerate_one_level(
    row, col, val, [1.] * n, cen, [5., 4., 3., 2., 1.], [0, 1, 2, 3], [0] * n,
    True, True, True, -1., 0, [], [], False, 2, 2, 2, 2,
    aniso_cell_coupling=1, force_line_direction=False)
assert out[1] == [0, 2], out
EOF
"""),
dict(id="b31-few-queues", property="C25",
 needs="anisotropic stage on a mesh where no cell has three boundary faces",
 breaks="queues are allocated for the levels present only and the emptiness test reads past them",
 edits=[(H+"Seeds_Pool.h", "    _l_of_seeds = std::vector<CoMMAQueueType>(CoMMACellT::N_CELL_TYPES);",
  "    _l_of_seeds = std::vector<CoMMAQueueType>(\n      *std::max_element(n_bnd_faces.begin(), n_bnd_faces.end()) + 1\n    );")],
 demo=r"""#!/bin/bash
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
cat > "$out/d.cpp" <<'EOF'
#include "CoMMA/CoMMA.h"
int main() {
  std::vector<unsigned long> row{0, 1, 3, 5, 7, 8}, col{1, 0, 2, 1, 3, 2, 4, 3}, idx{0, 2}, lines{0, 1}, f2c;
  std::vector<double> w(8, 1.), vol(5, 1.), prio{5, 4, 3, 2, 1};
  std::vector<std::vector<double>> cen{{0, 0}, {1, 0}, {2, 0}, {3, 0}, {4, 0}};
  std::vector<int> nb{1, 0, 0, 0, 1};
  comma::agglomerate_one_level<unsigned long, double, int>(
    row, col, w, vol, cen, prio, {}, nb, false, true, true, 4.,
    comma::CoMMASeedsPoolT::BOUNDARY_PRIORITY, f2c, idx, lines, false, 2, 2, 2, 2);
}
EOF
g++ -std=c++17 -w -O0 -g -fsanitize=address -D_GLIBCXX_ASSERTIONS -I include -I _build/include "$out/d.cpp" -o "$out/d" || exit 3
ASAN_OPTIONS=detect_leaks=0 "$out/d" > "$out/log" 2>&1
code=$?
tail -3 "$out/log"
exit $code
"""),
dict(id="b32-order-too-far", property="C27",
 needs="thin region where the gathered neighbourhood plus the seed is exactly the maximum cardinality",
 breaks="one more layer than needed is gathered",
 edits=[(H+"Dual_Graph.h", "             < max_card) {", "             <= max_card) {")],
 demo=r"""
int main() {
  Mesh m = grid(20, 1);
  comma::Dual_Graph<I, double, int> g(
    m.n(), m.row, m.col, m.w, m.vol, m.cen, m.nb, 2, {});
  std::unordered_map<I, int> d;
  int order = 2;
  g.compute_neighbourhood_of_cc({0}, order, d, 4, std::vector<bool>(20, false));
  EXPECT(d.size() == 3);
}
"""),
dict(id="b34-delayed-count", property="C29",
 needs="delayed creation of coarse cells followed by their flush",
 breaks="fine cells of delayed coarse cells are counted twice",
 edits=[(H+"Coarse_Cell_Container.h", "      if (!_is_fc_agglomerated[i_fc]) {", "      if (!_fc_2_cc[i_fc].has_value()) {")],
 demo=r"""
int main() {
  Mesh m = grid(4, 2);
  auto g = std::make_shared<comma::Dual_Graph<I, double, int>>(
    m.n(), m.row, m.col, m.w, m.vol, m.cen, m.nb, 2, V{});
  comma::Coarse_Cell_Container<I, double, int> c(g, 1);
  c.create_cc({0, 1}, 1, false, true);
  c.create_cc({2, 3}, 1);
  c.cc_create_all_delayed_cc();
  EXPECT(c.get_number_of_fc_agglomerated() == 4);
}
"""),
dict(id="b36-bimap-rename", property="C31",
 needs="renaming a left key to a name that sorts before another one and then looking it up from the right side",
 breaks="renaming recreates the entry, so the other side keeps pointing at the old one",
 edits=[(H+"deprecated/Bimap.h", """    auto node = _mapB.extract(a_old);
    if (!node.empty()) {
      node.key() = a_new;
      _mapB.insert(std::move(node));
    }""", """    auto it = _mapB.find(a_old);
    if (it != _mapB.end()) {
      const A *ap = &(_mapB.insert_or_assign(a_new, it->second).first->first);
      if (a_old < a_new) _mapA.insert_or_assign(*(it->second), ap);
      _mapB.erase(it);
    }""")],
 demo="#!/bin/bash\n"+r"""out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
cat > "$out/d.cpp" <<'EOF'
#include <string>
#include "CoMMA/deprecated/Bimap.h"
int main() {
  comma::Bimap<int, std::string> b;
  b.insert(5, "five");
  b.insert(7, "seven");
  b.update_nodeB(5, 2);
  return b.get_B(2) == "five" && b.get_A("five") == 2 ? 0 : 1;
}
EOF
g++ -std=c++17 -w -O0 -g -fsanitize=address -I include -I _build/include "$out/d.cpp" -o "$out/d" || exit 3
ASAN_OPTIONS=detect_leaks=0 "$out/d" > "$out/log" 2>&1
code=$?
tail -3 "$out/log"
exit $code
"""),
dict(id="b37-goal-side", property="C10",
 needs="minimum below and maximum above the goal, ties in compactness and faces between sizes on both sides of the goal",
 breaks="a larger coarse cell no longer wins a tie against one below the goal",
 edits=[(H+"Agglomerator.h", "               arg_min_card != this->_goal_card)) {", "               size_current_cc <= this->_goal_card)) {")],
 demo=digest("    a.min = 2 + r(3);\n    a.goal = a.min + 1 + r(3);\n    a.max = a.goal + 1 + r(3);", 300, "@@")),
dict(id="b39-short-lines-ok", property="C19",
 needs="provided lines whose offsets end before the end of the list",
 breaks="provided lines with surplus cells are accepted",
 edits=[(H+"CoMMA.h", """      } else if (agglomerationLines_Idx.back()
                 != static_cast""", """      } else if (agglomerationLines_Idx.back()
                 > static_cast""")],
 demo=r"""
int main() {
  Mesh m = grid(8, 1);
  Args a;
  a.aniso = true;
  a.build = false;
  a.lidx = {0, 4};
  a.lines = {0, 1, 2, 3, 4, 5};
  bool thrown = false;
  try { run(m, a); } catch (const std::invalid_argument &) { thrown = true; }
  EXPECT(thrown);
}
"""),
dict(id="b43-null-limit", property="C21",
 needs="lines built with a limit of zero cells",
 breaks="a null limit is taken literally instead of being dropped",
 edits=[(H+"CoMMA.h", "max_cells_in_line.has_value() && max_cells_in_line.value() <= 0)", "max_cells_in_line.has_value()\n          && static_cast<std::make_signed_t<CoMMAIndexType>>(max_cells_in_line.value()) < 0)")],
 demo=r"""
int main() {
  Mesh m = grid(8, 2, 1, 1, 0.125);
  Args a;
  a.aniso = true;
  a.compliant = all_cells(m);
  const Out o = run(m, a);
  a.max_line = 0;
  const Out p = run(m, a);
  EXPECT(o.f2c == p.f2c);
  EXPECT(o.lines == p.lines);
}
"""),
dict(id="b44-turn-back", property="C13",
 needs="a hairpin: an unused anisotropic neighbour lying straight behind the end of the line",
 breaks="a line may fold back on itself",
 edits=[(H+"Agglomerator.h", "        if (dot > 0 && !dot_deviate", "        if (!dot_deviate")],
 demo=r"""
int main() {
  // 0 and 1 along x; 2 is attached to 1 but lies behind 0
  std::vector<std::tuple<I, I, double>> e{{0, 1, 10}, {1, 2, 9.5}, {2, 3, 1}};
  Mesh m = make(2, 4, e, {{0, 0}, {1, 0}, {-1, 0.0625}, {-1, 5}});
  Args a;
  a.aniso = true;
  a.thr = -1;
  a.compliant = {0, 1, 2};
  a.goal = a.min = a.max = 2;
  const Out o = run(m, a);
  EXPECT((o.lidx == V{0, 1}));
  EXPECT(o.f2c[2] != o.f2c[0]);
}
"""),
dict(id="b45-pair-too-short", property="C14",
 needs="provided lines of exactly two cells",
 breaks="provided lines of two cells are ignored",
 edits=[(H+"Agglomerator.h", "        if (ln_sz > 1) {", "        if (ln_sz > 2) {")],
 demo=r"""
int main() {
  Mesh m = grid(8, 1);
  Args a;
  a.aniso = true;
  a.build = false;
  a.lidx = {0, 2, 6};
  a.lines = {6, 7, 0, 1, 2, 3};
  const Out o = run(m, a);
  EXPECT((o.lidx == V{0, 1, 3}));
}
"""),
dict(id="b46-still-singular", property="C06",
 needs="a singular coarse cell that received another singular cell before its turn",
 breaks="a coarse cell that is no longer singular is dissolved all the same",
 edits=[(H+"Coarse_Cell_Container.h", "      if (cur_cc->_cardinality <= _sing_card_thresh) {", "      if (cur_cc->_is_isotropic) {")],
 demo=digest("    a.corr = true;\n    a.goal = a.min = a.max = 3;\n    a.sing = 1 + r(2);\n    a.pool = r(2);", 2000, "@@")),
dict(id="b47-front-dim", property="C26",
 needs="pure-front neighbourhood, third cell in 2D or fourth in 3D",
 breaks="the initial phase considering all neighbours lasts one cell too long",
 edits=[(H+"Neighbourhood.h", """          this->_dimension
        )) {""", """          this->_dimension + 1
        )) {""")],
 demo=r"""
int main() {
  std::vector<double> w{9, 8, 7, 6, 5, 4, 3, 2, 1, 0};
  comma::Neighbourhood_Pure_Front<I, double, int> n({1, 2, 3, 4, 5, 6, 7}, w, 2);
  n.update(0, {1, 4});
  n.update(1, {0, 2, 5});
  n.update(2, {1, 3, 6});
  const auto &c = n.get_candidates();
  EXPECT((V(c.begin(), c.end()) == V{3, 6}));
}
"""),
]
