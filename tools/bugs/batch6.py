exec(open("/verif/tools/bugs/batch2.py").read().split("BUGS = [")[0])
BUGS = [
dict(id="b90-narrow-total", property="C01",
 needs="more than 65535 cells",
 breaks="the agglomeration does not notice that all cells are agglomerated",
 edits=[(H+"Coarse_Cell_Container.h", "  CoMMAIndexType _nb_of_agglomerated_fc = 0;", "  unsigned short _nb_of_agglomerated_fc = 0;")],
 demo=r"""
int main() {
  Mesh m = grid(300, 240);
  const Out o = run(m, Args{});
  EXPECT(o.f2c.size() == m.n() && o.n_cc() == m.n() / 4);
}
"""),
dict(id="b95-short-lines-read", property="C15",
 needs="a line of one cell before other lines, as returned for a coarse level",
 breaks="the following lines are read at the wrong place",
 edits=[(H+"Agglomerator.h", """      for (auto idx_ptr = agglomerationLines_Idx.cbegin() + 1;
           idx_ptr != agglomerationLines_Idx.cend();
           ++idx_ptr) {
        const auto ln_sz = *idx_ptr - (*(idx_ptr - 1));
        if (ln_sz > 1) {
          this->_v_lines[0].push_back(std::make_shared<AnisotropicLine>(
            agglomerationLines.cbegin() + (*(idx_ptr - 1)),
            agglomerationLines.cbegin() + (*idx_ptr)
          ));
""", """      auto line_start = agglomerationLines.cbegin();
      for (auto idx_ptr = agglomerationLines_Idx.cbegin() + 1;
           idx_ptr != agglomerationLines_Idx.cend();
           ++idx_ptr) {
        const auto ln_sz = *idx_ptr - (*(idx_ptr - 1));
        if (ln_sz > 1) {
          const auto line_end = line_start + ln_sz;
          this->_v_lines[0].push_back(
            std::make_shared<AnisotropicLine>(line_start, line_end)
          );
          line_start = line_end;
""")],
 demo=r"""
int main() {
  Mesh m = grid(4, 2);
  Args a;
  a.aniso = true;
  a.build = false;
  a.lidx = {0, 1, 3, 5};
  a.lines = {0, 2, 6, 3, 7};
  const Out o = run(m, a);
  EXPECT(o.f2c[2] == o.f2c[6] && o.f2c[3] == o.f2c[7] && o.f2c[2] != o.f2c[3]);
  EXPECT(o.f2c[0] > 1);
}
"""),
dict(id="b91-narrow-counter", property="C02",
 needs="more than 65536 coarse cells",
 breaks="coarse cells far from each other get the same ID",
 edits=[(H+"Coarse_Cell_Container.h", "  CoMMAIndexType _cc_counter;", "  unsigned short _cc_counter;")],
 demo=r"""
int main() {
  Mesh m = grid(134000, 1);
  Args a;
  a.goal = a.min = a.max = 2;
  const Out o = run(m, a);
  EXPECT(o.n_cc() >= 66000);
  for (I i = 0; i + 1 < m.n(); ++i)
    EXPECT(std::max(o.f2c[i], o.f2c[i + 1]) - std::min(o.f2c[i], o.f2c[i + 1]) <= 2);
}
"""),
dict(id="b92-narrow-lines", property="C12",
 needs="lines with more than 65535 coarse cells altogether",
 breaks="the offsets of the exported lines start again from zero",
 edits=[(H+"Agglomerator.h", """      CoMMAIndexType idx = 0;
      aniso_lines_idx.reserve""", """      unsigned short idx = 0;
      aniso_lines_idx.reserve""")],
 demo=r"""
int main() {
  Mesh m = grid(40000, 5, 1, 8, 1);
  Args a;
  a.aniso = true;
  a.compliant = all_cells(m);
  const Out o = run(m, a);
  EXPECT(!o.lidx.empty() && o.lidx.back() == o.lines.size());
  for (I i = 1; i < o.lidx.size(); ++i) EXPECT(o.lidx[i] > o.lidx[i - 1]);
}
"""),
dict(id="b93-narrow-wall", property="C17",
 needs="a cell more than 65535 cells away from the wall",
 breaks="the distances start again from zero",
 edits=[(H+"Util.h", "    const auto cur_dist = dist[cur] + DistT{1};",
  "    const DistT cur_dist = static_cast<unsigned short>(dist[cur] + DistT{1});")],
 demo=r"""
#include "CoMMA/Util.h"
int main() {
  Mesh m = grid(70000, 1);
  std::vector<long> d;
  comma::compute_neighbourhood_based_wall_distance<I, long>(m.row, m.col, V{0}, d);
  for (I i = 0; i < m.n(); ++i) EXPECT(d[i] == static_cast<long>(i));
}
"""),
dict(id="b94-narrow-filter", property="C18",
 needs="more than 65535 cells",
 breaks="the last cells are never selected",
 edits=[(H+"Util.h", "    const auto n_cells = static_cast<IndexT>(n_bnd_faces.size());",
  "    const auto n_cells = static_cast<unsigned short>(n_bnd_faces.size());")],
 demo=r"""
#include "CoMMA/Util.h"
int main() {
  Mesh m = grid(70000, 1);
  V out;
  comma::filter_cells_by_n_edges<I, int>(m.row, m.nb, {4}, out);
  EXPECT(out.size() == m.n());
}
"""),
dict(id="b96-precision-guard", property="C38",
 needs="single precision and candidates whose aspect ratios differ by less than a thousandth",
 breaks="the first candidate is kept although another one is clearly better",
 edits=[(H+"Agglomerator.h", "              if (new_ar < min_ar and number_faces_in_common > 0) {",
  """              // Significant improvements only
              constexpr auto eps = static_cast<CoMMAWeightType>(1e4)
                * std::numeric_limits<CoMMAWeightType>::epsilon();
              if (min_ar - new_ar > eps * min_ar
                  and number_faces_in_common > 0) {""")],
 demo=r"""
using F = std::vector<float>;
int main() {
  // a row of three: the seed in the middle, the cell on the right slightly closer
  V row{0, 1, 3, 4}, col{1, 0, 2, 1}, f2c, li, l;
  comma::agglomerate_one_level<I, float, int>(
    row, col, F{1, 1, 1, 1}, F{1, 1, 1}, {{-1.0004f, 0}, {0, 0}, {1, 0}},
    F{1, 9, 1}, {}, {0, 1, 0}, false, false, true, 4.f,
    comma::CoMMASeedsPoolT::BOUNDARY_PRIORITY, f2c, li, l, false, 2, 2, 2, 2
  );
  EXPECT(f2c[1] == f2c[2] && f2c[0] != f2c[1]);
}
"""),
dict(id="b97-compact-enough", property="C04",
 needs="a coarse cell that is compact before having the minimum number of cells",
 breaks="a coarse cell smaller than the minimum is chosen although it could grow",
 edits=[(H+"Agglomerator.h", """        if ((this->_min_card <= size_current_cc)
            || size_current_cc == max_ind) {""", """        if ((this->_min_card <= size_current_cc) || size_current_cc == max_ind
            || cur_compact >= this->_dimension) {""")],
 demo=digest("    a.min = 5 + r(4);\n    a.goal = a.min + r(3);\n    a.max = a.goal + r(3);\n    a.pool = r(2) + 10 * r(2);", 3000, "@@")),
dict(id="b99-flat-direction", property="C25",
 needs="a two-dimensional mesh whose centres have three coordinates and lines of three or more cells",
 breaks="memory past the stored direction is written, the third coordinate is ignored",
 edits=[(H+"Agglomerator.h", "      std::vector<CoMMAWeightType> prev_dir(pts_dim);",
  "      std::vector<CoMMAWeightType> prev_dir(this->_dimension);"),
  (H+"Agglomerator.h", """    // Size might not be the dimension
    const auto pts_dim = this->_fc_graph->_centers[0].size();
    // size of the line""", "    // size of the line")],
 demo=r"""
int main() {
  Mesh m = grid(2, 8, 1, 8, 1);
  for (auto &p : m.cen) p.push_back(2 * p[1]);
  Args a;
  a.aniso = true;
  a.compliant = all_cells(m);
  const Out o = run(m, a);
  EXPECT(o.lidx.size() == 3 && o.lines.size() == 8);
}
"""),
dict(id="b103-order-kept", property="C20",
 needs="calls with different maximum cardinalities one after the other",
 breaks="the size of the neighbourhood is the one of an earlier call",
 edits=[(H+"Agglomerator.h", """    CoMMAIntType max_order_of_neighbourhood =
      std::max(this->_min_neighbourhood, this->_max_card / this->_dimension);

    // We fill the d_n_of_seeds considering the initial seed passed
    this->_fc_graph->compute_neighbourhood_of_cc(
      s_current_cc,
      max_order_of_neighbourhood,  // in and out""", """    static thread_local CoMMAIntType max_order_of_neighbourhood = 0;
    max_order_of_neighbourhood = std::max(
      max_order_of_neighbourhood,
      std::max(this->_min_neighbourhood, this->_max_card / this->_dimension)
    );

    // We fill the d_n_of_seeds considering the initial seed passed
    this->_fc_graph->compute_neighbourhood_of_cc(
      s_current_cc,
      max_order_of_neighbourhood,  // in and out""")],
 demo=r"""
int main() {
  Rnd r;
  for (int t = 0; t < 200; ++t) {
    Mesh m = random_mesh(r, 30 + r(30));
    for (auto &x : m.nb) x = std::min(x, 2);
    Args a;
    a.nbh = 1;
    a.goal = a.min = 3 + r(3);
    a.max = a.goal + 2;
    const Out x = run(m, a);
    Args b = a;
    b.goal = b.min = b.max = 24;
    if (t >= 20) run(m, b);
    const Out y = run(m, a);
    EXPECT(x.f2c == y.f2c);
  }
}
"""),
dict(id="b104-count-once", property="C29",
 needs="a singular coarse cell of several cells merged as a whole, then looked at again",
 breaks="the size of the coarse cell it was merged into is wrong",
 edits=[(H+"Coarse_Cell.h", """    _s_fc.insert(fcs.begin(), fcs.end());
    _cardinality += fcs.size();
    _compactness = new""", """    _s_fc.insert(fcs.begin(), fcs.end());
    ++_cardinality;
    _compactness = new""")],
 demo=digest("    a.corr = true;\n    a.sing = 2 + r(2);\n    a.goal = a.min = a.max = 4 + r(2);\n    a.pool = r(2) + 10 * r(2);", 3000, "@@")),
dict(id="b105-ends-of-rows", property="C28",
 needs="a cell inserted next to a cell that has other neighbours through faces of different size",
 breaks="the weights of the neighbours of that cell are exchanged",
 edits=[(H+"Dual_Graph.h", "        this->_m_CRS_Col_Ind.begin() + this->_m_CRS_Row_Ptr[elem], local_index",
  "        this->_m_CRS_Col_Ind.begin() + this->_m_CRS_Row_Ptr[elem + 1],\n        local_index")],
 demo=r"""
int main() {
  // 0 - 1 through a face of size 2
  comma::Subgraph<I, double, int> g(2, {0, 1, 2}, {1, 0}, {2, 2}, {1, 1}, {0, 1}, true);
  g.insert_node({1}, 2, 1., {7});
  const auto n = g.get_neighbours(1);
  const auto w = g.get_weights(1);
  EXPECT(n.size() == 2 && w.size() == 2);
  for (I k = 0; k < 2; ++k) EXPECT(w[k] == (n[k] == 0 ? 2. : 7.));
}
"""),
dict(id="b106-no-left-link", property="C31",
 needs="deleting a brother that is not the first one",
 breaks="the brothers before it are lost",
 edits=[(H+"deprecated/Tree.h", "      insertion->_left_idx = left_idx;\n", "")],
 demo=r"""
#include "CoMMA/deprecated/Tree.h"
int main() {
  using N = comma::Node<I, double, int>;
  auto root = std::make_shared<N>(100, 1.);
  comma::Tree<I, double, int> t(root);
  for (I i = 0; i < 3; ++i) t.insertSon(100, i, 1., 1);
  t.deleteNode(2);
  EXPECT(root->_sonc == 2 && root->_left_son_idx && root->_left_son_idx->_index == 0);
  EXPECT(root->_left_son_idx->_right_idx && root->_left_son_idx->_right_idx->_index == 1);
  t.deleteNode(1);
  EXPECT(root->_left_son_idx && root->_left_son_idx->_index == 0);
}
"""),
]
