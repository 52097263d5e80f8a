H = "include/CoMMA/"
BUGS = [
dict(id="b01-line-fallback-front", property="C02",
 needs="a line growing at its other end through a face of low coupling that keeps the direction",
 breaks="the cell is appended at the wrong end of the line, so pairs of cells that are not adjacent are agglomerated",
 edits=[(H+"Agglomerator.h", """              if (!opposite_direction_check) {
                cur_line->push_back(seed);
              } else {
                cur_line->push_front(seed);
              }""", """              if (!opposite_direction_check || cur_line->size() > 4) {
                cur_line->push_back(seed);
              } else {
                cur_line->push_front(seed);
              }""")],
 demo=r"""
int main() {
  // path 0..6 along x, priority in the middle
  std::vector<std::tuple<I, I, double>> e{
    {2, 3, 10}, {3, 4, 10.5}, {4, 5, 10}, {1, 2, 4}, {0, 1, 10}, {5, 6, 10},
    {2, 7, 9.75}, {6, 8, 10}, {8, 9, 10}};
  std::vector<std::vector<double>> c;
  for (int i = 0; i < 7; ++i) c.push_back({double(i), 0.});
  c.push_back({2., 1.});
  c.push_back({7., 0.});
  c.push_back({8., 0.});
  Mesh m = make(2, 10, e, c, {}, {1, 2, 3, 10, 3, 2, 1, 0, 0, 0});
  Args a;
  a.aniso = true;
  a.thr = -1;
  a.compliant = {0, 1, 2, 3, 4, 5, 6, 8, 9};
  const Out o = run(m, a);
  print("f2c", o.f2c);
  for (auto &cc : o.ccs()) EXPECT(connected(m, cc));
}
"""),
dict(id="b02-neigh-order-half", property="C04",
 needs="thin region (path-like) with a maximum cardinality larger than twice the default neighbourhood order",
 breaks="too few cells are gathered around the seed and coarse cells below the minimum are created although free neighbours exist",
 edits=[(H+"Dual_Graph.h", "             < max_card) {", "             < std::min<CoMMAIntType>(max_card, 12)) {")],
 demo=r"""
int main() {
  Mesh m = grid(80, 1);
  Args a;
  a.goal = a.min = a.max = 16;
  const Out o = run(m, a);
  print("f2c", o.f2c);
  for (auto &cc : o.ccs()) {
    if (cc.size() >= 16) continue;
    for (auto f : cc)
      for (I e = m.row[f]; e < m.row[f + 1]; ++e)
        EXPECT(o.f2c[m.col[e]] <= o.f2c[f]);
  }
}
"""),
dict(id="b03-clip-corner", property="C21",
 needs="2D mesh with cells having three or more boundary faces next to cells with two",
 breaks="boundary counts are capped at three also in 2D, so counts above the dimension change the seeds",
 edits=[(H+"CoMMA.h", "const CoMMAIntType expected_max_n_bnd = dimension;", "const CoMMAIntType expected_max_n_bnd = CoMMACellT::CORNER;")],
 demo=r"""
int main() {
  Mesh m = grid(6, 6);
  m.nb[35] = 2;
  Mesh k = m;
  k.nb[35] = 4;
  Args a;
  EXPECT(run(m, a).f2c == run(k, a).f2c);
}
"""),
dict(id="b06-coarse-weights-dirty", property="C16",
 needs="output vector of the coarse weights that already holds something",
 breaks="the coarse weights are appended to previous contents",
 edits=[(H+"Util.h", "  c_weights.clear();\n", "")],
 demo=r"""
int main() {
  Mesh m = grid(4, 2);
  V f2c{0, 0, 1, 1, 0, 0, 1, 1}, ci, cj;
  std::vector<double> w{7., 7.}, vol, pr;
  std::vector<std::vector<double>> cen;
  std::vector<int> nb;
  comma::build_coarse_graph<I, double, int>(
    f2c, m.row, m.col, m.w, m.vol, m.cen, m.prio, m.nb, ci, cj, w, vol, cen, pr, nb);
  EXPECT(w.size() == cj.size());
  EXPECT(w[0] == 2.);
}
"""),
dict(id="b07-wall-dirty", property="C17",
 needs="distance vector reused from a previous call",
 breaks="cells keep the distance of the previous call when it is shorter",
 edits=[(H+"Util.h", """  dist.resize(neigh_idxs.size() - 1);
  std::fill(dist.begin(), dist.end(), DistT{-1});
""", """  dist.resize(neigh_idxs.size() - 1, DistT{-1});
""")],
 demo=r"""
int main() {
  Mesh m = grid(8, 1);
  std::vector<int> d;
  comma::compute_neighbourhood_based_wall_distance<I, int>(m.row, m.col, {7}, d);
  comma::compute_neighbourhood_based_wall_distance<I, int>(m.row, m.col, {0}, d);
  for (int i = 0; i < 8; ++i) EXPECT(d[i] == i);
}
"""),
dict(id="b08-goal-above-max", property="C19",
 needs="goal cardinality larger than the maximum",
 breaks="unordered cardinalities are accepted",
 edits=[(H+"CoMMA.h", "if (!(min_card <= goal_card && goal_card <= max_card))", "if (!(min_card <= goal_card && min_card <= max_card))")],
 demo=r"""
int main() {
  Mesh m = grid(4, 4);
  Args a;
  a.min = 2;
  a.goal = 5;
  a.max = 4;
  bool thrown = false;
  try {
    run(m, a);
  } catch (const std::invalid_argument &) {
    thrown = true;
  }
  EXPECT(thrown);
}
"""),
dict(id="b09-primal-dir-last", property="C13",
 needs="a bending line whose seed is not an end, so that its other end is extended too",
 breaks="the other end of the line is searched along the last direction instead of the first one",
 edits=[(H+"Agglomerator.h", """          // Always new_seed - old_seed to be sure to keep the same direction
          this->_fc_graph->get_center_direction(seed, old_seed, prev_dir);
          if (!primal_dir.has_value()) primal_dir = prev_dir;""", """          // Always new_seed - old_seed to be sure to keep the same direction
          this->_fc_graph->get_center_direction(seed, old_seed, prev_dir);
          primal_dir = prev_dir;""")],
 demo=r"""
int main() {
  // an arc: 15 degrees more at each step
  const int n = 9;
  std::vector<std::vector<double>> c(n);
  std::vector<std::tuple<I, I, double>> e;
  double x = 0, y = 0, t = 0;
  for (int i = 0; i < n; ++i) {
    c[i] = {x, y};
    x += std::cos(t);
    y += std::sin(t);
    t += 15. * M_PI / 180;
    if (i) e.emplace_back(i - 1, i, 10);
  }
  std::vector<double> p{1, 2, 3, 9, 4, 3, 2, 1, 0};
  Mesh m = make(2, n, e, c, {}, p);
  Args a;
  a.aniso = true;
  a.thr = -1;
  a.compliant = all_cells(m);
  const Out o = run(m, a);
  print("lidx", o.lidx);
  EXPECT(o.lidx.size() == 2 && o.lidx[1] == 4);
}
"""),
dict(id="b10-line-end-index", property="C14",
 needs="a line whose end with the lower ID has the lower priority weight, same boundary faces at both ends and an odd number of cells",
 breaks="the line is cut from the wrong end",
 edits=[(H+"Agglomerator.h", "               || (w_fr == w_bk && l_fr < l_bk)  // ..or smaller index", "               || l_fr < l_bk  // ..or smaller index")],
 demo=r"""
int main() {
  Mesh m = grid(7, 1);
  for (int i = 0; i < 7; ++i) m.prio[i] = i;
  Args a;
  a.aniso = true;
  a.build = false;
  a.odd = false;
  a.lidx = {0, 5};
  a.lines = {1, 2, 3, 4, 5};
  const Out o = run(m, a);
  print("f2c", o.f2c);
  EXPECT(o.f2c[5] == 0 && o.f2c[4] == 0 && o.f2c[3] == 1 && o.f2c[2] == 1);
  EXPECT(o.f2c[1] > 1);
}
"""),
dict(id="b11-filter-clear-late", property="C18",
 needs="no positive number requested and an output vector that already holds something",
 breaks="previous contents survive",
 edits=[(H+"Util.h", """  filtered.clear();
  auto target""", """  auto target"""), (H+"Util.h", """    filtered.reserve(n_cells);
""", """    filtered.clear();
    filtered.reserve(n_cells);
""")],
 demo=r"""
int main() {
  Mesh m = grid(3, 3);
  V f{5, 6};
  comma::filter_cells_by_n_edges<I, int>(m.row, m.nb, {}, f);
  EXPECT(f.empty());
}
"""),
dict(id="b12-overload-swap", property="C23",
 needs="grouped arguments with odd line length and line building set differently",
 breaks="the two options are exchanged",
 edits=[(H+"CoMMA.h", """    aniso.build_lines,
    aniso.is_anisotropic,
    aniso.odd_line_length,""", """    aniso.odd_line_length,
    aniso.is_anisotropic,
    aniso.build_lines,""")],
 demo=r"""
int main() {
  Mesh m = grid(3, 7, 1, 16, 1);
  Args a;
  a.aniso = true;
  a.odd = false;
  a.compliant = all_cells(m);
  const Out o = run(m, a);
  V f, li, l;
  comma::GraphArgs<I, double, int> g(m.row, m.col, m.w, m.vol, m.cen, m.prio, m.nb, 2);
  comma::AgglomerationArgs<I, double, int> ag(4, 4, 4, false, comma::CoMMASeedsPoolT::BOUNDARY_PRIORITY);
  comma::AnisotropicArgs<I, double, int> an(true, a.compliant, true, false);
  comma::agglomerate_one_level<I, double, int>(g, ag, an, f, li, l);
  EXPECT(f == o.f2c && li == o.lidx && l == o.lines);
}
"""),
dict(id="b13-front-twice", property="C26",
 needs="pure front neighbourhood with at least as many added cells as the dimension plus one and an empty newest front",
 breaks="the second newest front is used before the oldest one",
 edits=[(H+"Neighbourhood.h", "        it = this->_q_neighs_w_weights.begin() + (cur_back--);", "        it = this->_q_neighs_w_weights.begin() + (this->_q_neighs_w_weights.size() > 3 ? cur_front++ : cur_back--);")],
 demo=r"""
int main() {
  std::vector<double> w(10, 1.);
  comma::Neighbourhood_Pure_Front<I, double, int> n({1, 2, 3, 4, 5, 6, 7, 8, 9}, w, 2);
  n.update(0, {1, 7});
  n.update(1, {0, 2, 8});
  n.update(2, {1, 3});
  n.update(3, {2});
  const auto c = n.get_candidates();
  EXPECT(c.size() == 1 && c[0] == 7);
}
"""),
dict(id="b15-order-not-restored", property="C10",
 needs="maximum above minimum, the last cell tried being rejected and being a neighbour of the coarse cell kept",
 breaks="the rejected cell is queued after the other new seeds",
 edits=[(H+"Agglomerator.h", "for (auto i_s = arg_min_card + 1; i_s < max_ind + 1; i_s++) {", "for (auto i_s = arg_min_card + 1; i_s < max_ind; i_s++) {")],
 demo=r"""
int main() {
  Rnd r;
  unsigned long h = 0;
  for (int k = 0; k < 300; ++k) {
    Mesh m = random_mesh(r, 30);
    Args a;
    a.min = 2; a.goal = 4; a.max = 6;
    a.pool = k % 2 ? 1 : 0;
    a.nbh = k % 3 ? 0 : 1;
    h = digest(run(m, a).f2c, h);
  }
  std::cout << "results: " << h << "UL" << std::endl;
  // results of the published algorithm
  EXPECT(h == 13108543018279384394UL);
}
"""),
dict(id="b17-sing-is-min", property="C21",
 needs="singular threshold at or above the minimum cardinality, with correction and coarse cells of exactly the minimum size",
 breaks="coarse cells of the minimum size are treated as singular",
 edits=[(H+"CoMMA.h", "    sing_thresh = min_card - 1;", "    sing_thresh = min_card;")],
 demo=r"""
int main() {
  Rnd r;
  for (int k = 0; k < 60; ++k) {
    Mesh m = random_mesh(r, 20);
    Args a, b;
    a.min = 2; a.goal = 3; a.max = 4;
    a.corr = true;
    a.sing = 1;
    b = a;
    b.sing = 2;
    EXPECT(run(m, a).f2c == run(m, b).f2c);
  }
}
"""),
dict(id="b18-card-plus-one", property="C06",
 needs="a multi-cell singular coarse cell moved as a whole before another singular cell chooses between neighbours by number of cells",
 breaks="the grown coarse cell counts too few cells and is preferred",
 edits=[(H+"Coarse_Cell.h", """    _s_fc.insert(fcs.begin(), fcs.end());
    _cardinality += fcs.size();""", """    _s_fc.insert(fcs.begin(), fcs.end());
    ++_cardinality;""")],
 demo=r"""
int main() {
  Rnd r;
  unsigned long h = 0;
  for (int k = 0; k < 400; ++k) {
    Mesh m = random_mesh(r, 30);
    Args a;
    a.min = 4; a.goal = 4; a.max = 5;
    a.corr = true;
    a.sing = 3;
    h = digest(run(m, a).f2c, h);
  }
  std::cout << "results: " << h << "UL" << std::endl;
  // results of the published algorithm
  EXPECT(h == 17175849185430841688UL);
}
"""),
dict(id="b19-sing-equal", property="C05",
 needs="singular threshold of two or more and a coarse cell of exactly that size",
 breaks="coarse cells of exactly the threshold size are not corrected",
 edits=[(H+"Coarse_Cell_Container.h", """            && static_cast<decltype(_sing_card_thresh)>(s_fc.size())
              <= _sing_card_thresh)""", """            && (s_fc.size() == 1
                || static_cast<decltype(_sing_card_thresh)>(s_fc.size())
                  < _sing_card_thresh))""")],
 demo=r"""
int main() {
  Rnd r;
  for (int k = 0; k < 200; ++k) {
    Mesh m = random_mesh(r, 20);
    Args a;
    a.min = 4; a.goal = 4; a.max = 5;
    a.corr = true;
    a.sing = 2;
    const Out o = run(m, a);
    // connected mesh, no anisotropic cell: nothing that small is left
    for (auto &c : o.ccs()) EXPECT(c.size() > 2 || o.n_cc() == 1);
  }
}
"""),
]
