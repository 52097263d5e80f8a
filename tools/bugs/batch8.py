exec(open("/verif/tools/bugs/batch2.py").read().split("BUGS = [")[0])
BUGS = [
dict(id="b126-volume-of-one", property="C28",
 needs="several cells of different volumes added at once to a coarse cell with its own graph",
 breaks="all the added cells get the volume of one of them",
 edits=[(H+"Coarse_Cell.h", """    for (const auto &i_fc : fcs) {
      _cc_graph->insert_node(
        this->_fc_graph->get_neighbours(i_fc),
        i_fc,
        this->_fc_graph->_volumes[i_fc],
""", """    const auto vol = this->_fc_graph->_volumes[*fcs.begin()];
    for (const auto &i_fc : fcs) {
      _cc_graph->insert_node(
        this->_fc_graph->get_neighbours(i_fc),
        i_fc,
        vol,
""")],
 demo=r"""
int main() {
  std::vector<std::tuple<I, I, double>> e;
  std::vector<std::vector<double>> cen;
  std::vector<double> vol;
  for (I i = 0; i < 6; ++i) {
    cen.push_back({double(i), 0.});
    vol.push_back(1. + double(i));
    if (i) e.emplace_back(i - 1, i, 1.);
  }
  const Mesh m = make(2, 6, e, cen, {}, {}, vol);
  const V none{};
  auto g = std::make_shared<comma::Dual_Graph<I, double, int>>(
    m.n(), m.row, m.col, m.w, m.vol, m.cen, m.nb, m.dim, none
  );
  comma::Coarse_Cell_Subgraph<I, double, int> c(g, 0, {0, 1}, 1);
  c.insert_cells({2, 3, 4}, 1);
  EXPECT(c._cc_graph->_volumes.size() == 5);
  for (I i = 0; i < 5; ++i)
    EXPECT(c._cc_graph->_volumes[i]
           == m.vol[c._cc_graph->_mapping_l_to_g[i]]);
}
"""),
dict(id="b127-levels-turned", property="C26",
 needs="the older fronts of a front-advancing neighbourhood looked up with four or more of them",
 breaks="the fourth is the latest front again",
 edits=[(H+"Neighbourhood.h", "    return this->_q_neighs_w_weights[lvl];\n", "    return this->_q_neighs_w_weights[lvl % 3];\n")],
 demo=r"""
int main() {
  std::vector<double> w(40, 1.);
  std::unordered_set<I> all;
  for (I i = 1; i < 40; ++i) all.insert(i);
  comma::Neighbourhood_Pure_Front<I, double, int> n(all, w, 2);
  for (I i = 1; i < 8; ++i) {
    const V next{i - 1, i + 1, i + 20};
    n.update_it(i, next.cbegin(), next.cend());
  }
  const V far{10, 11};
  n.update_it(8, far.cbegin(), far.cend());
  const auto old = n.get_neighbours_by_level(3);
  for (const auto &p : old) EXPECT(p.first != 10 && p.first != 11);
}
"""),
dict(id="b128-edge-given", property="C11",
 needs="features of a coarse cell given one by one, with a shortest distance that is not one",
 breaks="the shortest distance is kept as it is given instead of its square",
 edits=[(H+"ARComputer.h", "    _sq_min_edge(min_edge * min_edge),\n", "    _sq_min_edge(min_edge),\n")],
 demo=r"""
int main() {
  comma::CellFeatures<I, double, int> f(4., 8., 2., 1, 0.5, 3.);
  EXPECT(f._sq_diam == 9.);
  EXPECT(f._sq_min_edge == 0.25);
}
"""),
]
