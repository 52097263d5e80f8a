exec(open("/verif/tools/bugs/batch2.py").read().split("BUGS = [")[0])
# the stages run by hand
BY_HAND = r"""
using G = comma::Dual_Graph<I, double, int>;
using C = comma::Coarse_Cell_Container<I, double, int>;
using P = comma::Seeds_Pool_Boundary_Priority<I, double, int>;
static V map_of(const Mesh &m, int goal, int min, int max) {
  const V none{};
  auto g = std::make_shared<G>(
    m.n(), m.row, m.col, m.w, m.vol, m.cen, m.nb, m.dim, none
  );
  auto c = std::make_shared<C>(g, 1);
  auto p = std::make_shared<P>(m.nb, m.prio, false);
  p->initialize();
  comma::Agglomerator_Biconnected<I, double, int> agg(
    g, c, p, m.dim, comma::CoMMAAspectRatioT::DIAMETER_OVER_RADIUS,
    comma::CoMMANeighbourhoodT::EXTENDED, 1
  );
  agg.agglomerate_one_level(goal, min, max, m.prio, false);
  V r;
  for (const auto &x : c->_fc_2_cc) r.push_back(x.value());
  return r;
}
"""
BUGS = [
dict(id="b110-usual-largest", property="C39",
 needs="agglomerators run by hand in 3D with the sizes left out",
 breaks="the largest size is the goal instead of two cells more",
 edits=[(H+"Agglomerator.h", "      {2, 5}, {3, 10}\n", "      {2, 5}, {3, 8}\n")],
 demo=BY_HAND + r"""
int main() {
  Rnd r;
  for (int t = 0; t < 200; ++t) {
    Mesh m = random_mesh(r, 12 + r(30), 3);
    for (auto &x : m.nb) x = std::min(x, m.dim);
    EXPECT(map_of(m, 0, 0, 0) == map_of(m, 8, 6, 10));
  }
}
"""),
dict(id="b111-line-turned", property="C39",
 needs="a line agglomerated from its last cell, whose fine cells are exported afterwards",
 breaks="the agglomeration turns the fine line around",
 edits=[(H+"Agglomerator.h", """        else
          loop_line(line->crbegin(), line->crend());
""", """        else {
          std::reverse(line->begin(), line->end());
          loop_line(line->cbegin(), line->cend());
        }
"""), (H+"Agglomerator.h", "#include <cmath>\n", "#include <algorithm>\n#include <cmath>\n")],
 demo=r"""
using G = comma::Dual_Graph<I, double, int>;
using C = comma::Coarse_Cell_Container<I, double, int>;
using P = comma::Seeds_Pool_Boundary_Priority<I, double, int>;
int main() {
  Mesh m = grid(4, 1);
  m.prio = {1, 2, 3, 4};
  const V none{};
  auto g = std::make_shared<G>(
    m.n(), m.row, m.col, m.w, m.vol, m.cen, m.nb, m.dim, none
  );
  auto c = std::make_shared<C>(g, 1);
  auto p = std::make_shared<P>(m.nb, m.prio, false);
  const V idx{0, 4}, lines{0, 1, 2, 3};
  comma::Agglomerator_Anisotropic<I, double, int> agg(
    g, c, p, m.dim, 4., idx, lines, m.prio, false, true, std::nullopt,
    comma::CoMMACellCouplingT::MAX_WEIGHT, true
  );
  agg.agglomerate_one_level(2, 2, 2, m.prio, false);
  V i, l;
  agg.export_anisotropic_lines(0, i, l);
  EXPECT(i == idx);
  EXPECT(l == lines);
}
"""),
dict(id="b113-power-parity", property="C40",
 needs="an integer power of five or more",
 breaks="whether the power is odd is judged from its half",
 edits=[(H+"Util.h", "  if constexpr ((p % 2) == 0) {\n    return tmp * tmp;", "  if constexpr (((p / 2) % 2) == 0) {\n    return tmp * tmp;")],
 demo=r"""
int main() {
  const double x = std::atof("3");
  EXPECT(comma::int_power<4>(x) == 81);
  EXPECT(comma::int_power<5>(x) == 243);
  EXPECT(comma::int_power<6>(x) == 729);
}
"""),
dict(id="b114-direction-offset", property="C40",
 needs="points far from the origin compared with their distance",
 breaks="the direction is computed in single precision",
 edits=[(H+"Util.h", "    const T di = b[i] - a[i];\n", "    const T di = static_cast<float>(b[i]) - static_cast<float>(a[i]);\n")],
 demo=r"""
int main() {
  const std::vector<double> a{1e9 + 1, 0}, b{1e9 + 4, 4};
  std::vector<double> d(2);
  EXPECT(comma::get_direction(a, b, d) == 5);
  EXPECT(std::fabs(d[0] - .6) < 1e-12 && std::fabs(d[1] - .8) < 1e-12);
}
"""),
dict(id="b116-corners-ignored", property="C09",
 needs="a pool whose only queued seeds are corners",
 breaks="the pool is said to be empty",
 edits=[(H+"Seeds_Pool.h", """            && _l_of_seeds[CoMMACellT::RIDGE].empty()
            && _l_of_seeds[CoMMACellT::CORNER].empty();""", """            && _l_of_seeds[CoMMACellT::RIDGE].empty();""")],
 demo=r"""
int main() {
  const std::vector<int> nb{3, 0, 1};
  const std::vector<double> w{1, 2, 3};
  comma::Seeds_Pool_Boundary_Priority<I, double, int> p(nb, w, false);
  p.update({0});
  EXPECT(!p.is_empty());
  EXPECT(!p.need_initialization(std::vector<bool>(3, false)));
}
"""),
dict(id="b118-tried-again", property="C13",
 needs="an anisotropic cell that starts no line and is next to a cell of a later one",
 breaks="a cell that could not start a line is used by later lines",
 edits=[(H+"Agglomerator.h", """        this->_v_lines[0].push_back(cur_line);
        this->_nb_lines[0] += 1;
      }
""", """        this->_v_lines[0].push_back(cur_line);
        this->_nb_lines[0] += 1;
      } else {
        to_treat[primal_seed] = true;
      }
""")],
 demo=digest("    a.aniso = true;\n    a.compliant = all_cells(m);\n    a.thr = r(2) ? -1 : 1.5;\n    a.dir = r(2);\n    a.coupling = r(2);", 600, "@@")),
]
