// C18: filter of cells by number of edges
#include "common.h"
#include <unordered_set>
using namespace pbt;

static void run(Case &c) {
  Src &s = c.s;
  GenOpts go;
  go.max_n = c.tier ? 150 : 60;
  go.huge = c.huge;
  Mesh m = gen_mesh(s, go);
  const size_t n = m.n();
  if (!c.huge && s.chance(1, 3))
    for (auto &b : m.nbnd) b = static_cast<int>(s.draw(3)) ? 0 : b;
  std::unordered_set<Int> allowed;
  const size_t k = s.draw(5);
  for (size_t i = 0; i < k; ++i)
    allowed.insert(
      s.chance(1, 4) ? -static_cast<Int>(s.draw(3)) : static_cast<Int>(s.draw(9))
    );
  std::vector<Int> al(allowed.begin(), allowed.end());
  std::sort(al.begin(), al.end());
  std::vector<Idx> out(s.draw(5), 77);
  c.say(describe(m) + " allowed=" + show(al));
  comma::filter_cells_by_n_edges<Idx, Int>(m.row, m.nbnd, allowed, out);
  c.say(" -> " + show(out));
  std::vector<Idx> exp;
  for (Idx i = 0; i < n; ++i) {
    const Int e = static_cast<Int>(m.deg(i)) + m.nbnd[i];
    if (e > 0 && std::find(al.begin(), al.end(), e) != al.end()) exp.push_back(i);
  }
  PBT_CHECK(c, out == exp, "got " << show(out) << " instead of " << show(exp));
  c.nontrivial = !exp.empty() && exp.size() < n;
  c.label_if(!al.empty() && al[0] <= 0, "non-positive count requested");
  c.label_if(exp.empty(), "nothing selected");
}

const Property pbt::PROPERTY{
  "C18",
  "random graph and boundary counts x random set of requested numbers of edges "
  "(also empty, zero, negative); non-trivial: some but not all cells selected",
  run, 200000, 1500000, 16};
