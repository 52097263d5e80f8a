exec(open("/verif/tools/bugs/batch2.py").read().split("BUGS = [")[0])
PYDEMO = """#!/bin/bash
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=_build:examples/scripts exec python3-vt - <<'EOF'
%s
EOF
"""
BUGS = [
dict(id="b52-half-threshold", property="C12",
 needs="an anisotropy threshold between one half and one",
 breaks="the threshold is not inverted, so that every compliant cell is anisotropic",
 edits=[(H+"Agglomerator.h", "        (threshold_anisotropy > 1 || threshold_anisotropy < 0)\n",
         "        (threshold_anisotropy >= 0.5 || threshold_anisotropy < 0)\n")],
 demo=r"""
int main() {
  Mesh m = grid(6, 6, 1, 1.5, 1);
  Args a;
  a.aniso = true;
  a.thr = 0.5;
  a.compliant = all_cells(m);
  const Out o = run(m, a);
  EXPECT(o.lidx.empty());
}
"""),
dict(id="b54-first-dimension", property="C20",
 needs="a 3D call with lines after a 2D one in the same process",
 breaks="directions keep the number of coordinates of the first call",
 edits=[(H+"Agglomerator.h", """    const auto pts_dim = this->_fc_graph->_centers[0].size();
    // size of the line""", """    static const auto pts_dim = this->_fc_graph->_centers[0].size();
    // size of the line""")],
 demo=r"""
int main() {
  Args a;
  a.aniso = true;
  a.thr = 2;
  Mesh m = grid(4, 6, 1, 8, 1);
  a.compliant = all_cells(m);
  EXPECT(run(m, a).lidx.size() == 5);
  // lines along z
  m = grid(3, 3, 8, 16, 16, 1, true);
  a.compliant = all_cells(m);
  const Out o = run(m, a);
  EXPECT(o.lidx.size() == 10);
  EXPECT(o.lines.size() == 36);
}
"""),
dict(id="b55-shallow-look-ahead", property="C32",
 needs="a look-ahead of four steps and candidates that differ in the last one only",
 breaks="at most three steps are foreseen",
 edits=[(H+"Agglomerator.h", "          fc_iter - 1,\n          cur_neighbourhood,",
         "          std::min<CoMMAIntType>(fc_iter - 1, 2),\n          cur_neighbourhood,")],
 demo=digest("    a.iter = 4;\n    a.goal = a.min = a.max = 5 + r(3);\n    a.ar = r(4);", 150, "@@", mesh="random_mesh(r, 10 + r(8), 2)")),
dict(id="b56-foreseen-kept", property="C32",
 needs="look-ahead and a candidate chosen for the faces of the cell foreseen after it",
 breaks="the faces of the foreseen cell are counted as faces of the added one",
 edits=[(H+"Agglomerator.h", "\n          // ... same for faces in common\n          max_faces_in_common = ref_inner_faces;\n",
         "\n          // ... same for faces in common\n          max_faces_in_common = inner_max_faces_in_common;\n")],
 demo=digest("    a.iter = 2 + r(2);\n    a.min = 2;\n    a.goal = 4;\n    a.max = 6 + r(3);\n    a.ar = r(4);", 400, "@@", mesh="random_mesh(r, 10 + r(12), 2)")),
dict(id="b57-tie-by-number", property="C33",
 needs="two candidates that tie in everything, met in decreasing number",
 breaks="the number of the cells decides between them",
 edits=[(H+"Agglomerator.h", "              if (new_ar < min_ar and number_faces_in_common > 0) {",
         "              if ((new_ar < min_ar\n                   or (new_ar == min_ar and i_fc < argmin_ar))\n                  and number_faces_in_common > 0) {")],
 demo=digest("    for (auto &x : m.prio) x = r(m.n());\n    a.pool = r(2) + 10 * r(2);\n    a.goal = a.min = a.max = 3 + r(6);", 600, "@@", mesh="grid(3 + r(6), 3 + r(6))")),
dict(id="b58-shared-buffer", property="C34",
 needs="two agglomerations running at the same time",
 breaks="both write the same buffer of neighbours",
 edits=[(H+"Dual_Graph.h", "    std::unordered_set<CoMMAIndexType> cc_neighs{};\n    for (const auto fc : s_seeds)",
         "    static std::unordered_set<CoMMAIndexType> cc_neighs{};\n    cc_neighs.clear();\n    for (const auto fc : s_seeds)")],
 demo=r"""
#include <thread>
int main() {
  Mesh m = grid(60, 60);
  Args a;
  a.goal = a.min = a.max = 8;
  const Out ref = run(m, a);
  std::vector<std::thread> ts;
  std::vector<int> bad(8, 0);
  for (int k = 0; k < 8; ++k)
    ts.emplace_back([&, k] {
      for (int t = 0; t < 40; ++t)
        if (run(m, a).f2c != ref.f2c) bad[k] = 1;
    });
  for (auto &t : ts) t.join();
  for (int b : bad) EXPECT(!b);
}
"""),
dict(id="b61-short-distance", property="C17",
 needs="a cell more than 127 cells away from the wall",
 breaks="distances above 127 are wrong",
 edits=[(H+"Util.h", "    const auto cur_dist = dist[cur] + DistT{1};",
         "    const auto cur_dist = static_cast<signed char>(dist[cur] + DistT{1});")],
 demo=r"""
#include "CoMMA/Util.h"
int main() {
  Mesh m = grid(130, 1);
  std::vector<int> d;
  // the search may not end
  alarm(20);
  comma::compute_neighbourhood_based_wall_distance<I, int>(m.row, m.col, V{0}, d);
  for (int i = 0; i < 130; ++i) EXPECT(d[i] == i);
}
""".replace('#include "CoMMA/Util.h"', '#include <unistd.h>\n#include "CoMMA/Util.h"')),
dict(id="b62-long-limit", property="C14",
 needs="a limit of more than 127 cells in line and a longer line",
 breaks="lines are not limited any more",
 edits=[(H+"Agglomerator.h", "        typename decltype(this->_max_cells_in_line)::value_type n_cells{0};",
         "        signed char n_cells{0};")],
 demo=r"""
int main() {
  Mesh m = grid(300, 1);
  Args a;
  a.aniso = true;
  a.build = false;
  a.lidx = {0, 300};
  a.lines = all_cells(m);
  a.max_line = 200;
  const Out o = run(m, a);
  EXPECT(o.lines.size() == 100);
}
"""),
dict(id="b63-inner-triangles", property="C37",
 needs="only quadrangles asked for and an inner cell with three neighbours",
 breaks="inner triangles are kept as if they were quadrangles on the boundary",
 edits=[(H+"Dual_Graph.h", "              if ((is_on_boundary(i_fc) > 0 && nb_neighbours == 3)\n",
         "              if ((is_on_boundary(i_fc) >= 0 && nb_neighbours == 3)\n")],
 demo=r"""
#include <deque>
int main() {
  Mesh m = make(2, 4, {{0, 1, 1.}, {0, 2, 16.}, {0, 3, 16.}}, {{0, 0}, {1, 0}, {-1, 1}, {-1, -1}});
  comma::Dual_Graph<I, double, int> g(m.n(), m.row, m.col, m.w, m.vol, m.cen, m.nb, 2, V{0});
  std::vector<double> mw(4), alt;
  std::vector<bool> t(4);
  std::deque<I> cells;
  g.tag_anisotropic_cells(alt, mw, t, cells, 4., m.prio, comma::CoMMACellCouplingT::MAX_WEIGHT, 2);
  EXPECT(cells.empty());
}
"""),
dict(id="b65-open-threshold", property="C37",
 needs="a cell whose ratio is exactly the threshold",
 breaks="such a cell is not anisotropic",
 edits=[(H+"Dual_Graph.h", "        if (ar >= threshold_anisotropy) {", "        if (ar > threshold_anisotropy) {")],
 demo=r"""
int main() {
  Mesh m = grid(4, 8, 1, 4, 1);
  Args a;
  a.aniso = true;
  a.thr = 4;
  a.compliant = all_cells(m);
  EXPECT(run(m, a).lidx.size() == 5);
}
"""),
dict(id="b64-absolute-ratio", property="C30",
 needs="a grid with a spacing around 1e-7 and an aspect ratio that has the unit of a length",
 breaks="differences between aspect ratios of small cells are ignored",
 edits=[(H+"Agglomerator.h", "              if (new_ar < min_ar and number_faces_in_common > 0) {",
         "              if (min_ar - new_ar > 1e-12 and number_faces_in_common > 0) {")],
 demo=digest("    a.ar = 2;\n    a.goal = a.min = a.max = 4;\n    for (auto &x : m.cen) for (auto &y : x) y *= 0x1p-44;", 300, "@@")),
]
