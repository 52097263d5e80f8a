// C30: uniform structured grids coarsen into regular blocks, level after level
#include "common.h"
using namespace pbt;

namespace {
struct Grid {
  int nx, ny, nz;  // nz = 1 in 2D
  std::vector<std::array<int, 3>> pos;  // by cell
};

// every coarse cell must be an aligned 2x2(x2) block
void verify_blocks(Case &c, const Grid &g, int dim, const Out &o) {
  std::map<std::array<int, 3>, Idx> blocks;
  PBT_CHECK(c, o.f2c.size() == g.pos.size(), "size of the result");
  std::map<Idx, std::array<int, 3>> where;
  for (size_t i = 0; i < g.pos.size(); ++i) {
    const std::array<int, 3> b{
      g.pos[i][0] / 2, g.pos[i][1] / 2, dim == 3 ? g.pos[i][2] / 2 : 0
    };
    const auto it = blocks.emplace(b, o.f2c[i]).first;
    PBT_CHECK(
      c, it->second == o.f2c[i],
      "block (" << b[0] << "," << b[1] << "," << b[2] << ") of the "
                << g.nx << "x" << g.ny << "x" << g.nz
                << " grid is split between coarse cells " << it->second
                << " and " << o.f2c[i]
    );
    const auto jt = where.emplace(o.f2c[i], b).first;
    PBT_CHECK(
      c, jt->second == b, "coarse cell " << o.f2c[i] << " covers two blocks"
    );
  }
}

void run(Case &c) {
  Src &s = c.s;
  const int dim = s.chance(1, 3) ? 3 : 2;
  const int half = dim == 2 ? (c.tier ? 20 : 10) : (c.tier ? 5 : 3);
  Grid g;
  g.nx = 2 * static_cast<int>(1 + s.draw(half));
  g.ny = 2 * static_cast<int>(1 + s.draw(half));
  g.nz = dim == 3 ? 2 * static_cast<int>(1 + s.draw(half)) : 1;
  if (c.huge) {  // more than 2^16 cells
    g.nx = 4 * static_cast<int>(5 + s.draw(dim == 2 ? 100 : 10));
    g.ny = dim == 2 ? 65536 / g.nx / 4 * 4 + 4
                    : 4 * static_cast<int>(5 + s.draw(10));
    if (dim == 3) g.nz = 65536 / (g.nx * g.ny) / 4 * 4 + 4;
  }
  const size_t n = static_cast<size_t>(g.nx) * g.ny * g.nz;
  Real h = 1.;
  switch (s.draw(3)) {
  case 1: h = std::ldexp(1., static_cast<int>(s.draw(101)) - 50); break;
  case 2: if (!c.huge) h = 0.1 * static_cast<Real>(1 + s.draw(500)); break;
  default: break;
  }
  // numbering of the cells
  std::vector<Idx> num(n);
  for (size_t i = 0; i < n; ++i) num[i] = i;
  const int numbering = static_cast<int>(s.draw(4));
  auto lex = [&](int i, int j, int k) {
    return (static_cast<size_t>(k) * g.ny + j) * g.nx + i;
  };
  if (numbering == 1) std::reverse(num.begin(), num.end());
  if (numbering == 2)
    for (int k = 0; k < g.nz; ++k)
      for (int j = 0; j < g.ny; ++j)
        for (int i = 0; i < g.nx; ++i)
          num[lex(i, j, k)] = (static_cast<Idx>(i) * g.ny + j) * g.nz + k;
  if (numbering == 3) {
    if (c.huge)  // 12289 is a prime
      for (size_t i = 0; i < n && n % 12289 != 0; ++i) num[i] = i * 12289 % n;
    else
      s.shuffle(num);
  }
  const bool mix_neighs = !c.huge && s.coin();
  const int prio = static_cast<int>(s.draw(c.huge ? 4 : 5));
  Mesh m;
  m.dim = dim;
  m.family = "uniform";
  g.pos.resize(n);
  for (int k = 0; k < g.nz; ++k)
    for (int j = 0; j < g.ny; ++j)
      for (int i = 0; i < g.nx; ++i) g.pos[num[lex(i, j, k)]] = {i, j, k};
  for (size_t q = 0; q < n; ++q) {
    const auto [i, j, k] = g.pos[q];
    int nb = 0;
    std::vector<Idx> v;
    auto add = [&](int x, int y, int z) {
      if (x < 0 || y < 0 || z < 0 || x >= g.nx || y >= g.ny || z >= g.nz) ++nb;
      else v.push_back(num[lex(x, y, z)]);
    };
    if (dim == 3) add(i, j, k - 1);
    add(i, j - 1, k);
    add(i - 1, j, k);
    add(i + 1, j, k);
    add(i, j + 1, k);
    if (dim == 3) add(i, j, k + 1);
    if (mix_neighs) s.shuffle(v);
    for (auto x : v) {
      m.col.push_back(x);
      m.w.push_back(dim == 2 ? h : h * h);
    }
    m.row.push_back(m.col.size());
    m.vol.push_back(dim == 2 ? h * h : h * h * h);
    std::vector<Real> cen{(i + .5) * h, (j + .5) * h};
    if (dim == 3) cen.push_back((k + .5) * h);
    m.cen.push_back(cen);
    m.nbnd.push_back(nb);
    switch (prio) {
    case 0: m.prio.push_back(static_cast<Real>(n - q)); break;
    case 1: m.prio.push_back(1.); break;
    case 2: m.prio.push_back(static_cast<Real>(q)); break;
    case 3: m.prio.push_back(nb); break;
    default: m.prio.push_back(static_cast<Real>(s.draw(100)) - 50.);
    }
  }
  Args a;
  a.goal = a.min = a.max = dim == 2 ? 4 : 8;
  const int pools[] = {0, 1, 10, 11};
  a.pool = pools[s.draw(4)];
  a.nbh = static_cast<int>(s.draw(2));
  a.corr = s.coin();
  // the criteria for which only the block is best
  const int ar3[] = {0, 1, 2, 7, 8};
  a.ar = dim == 2 ? static_cast<int>(s.draw(10)) : ar3[s.draw(5)];
  // the ratio of distances from the barycentre has an absolute tolerance
  if (a.ar == 8 && h < 0x1p-20) a.ar = 2;
  if (s.chance(1, 4)) {
    a.min = 2 + static_cast<int>(s.draw(a.goal - 1));
    a.max = a.goal + static_cast<int>(s.draw(4));
  }
  if (dim == 2 && a.ar != 3 && n <= 100 && s.chance(1, 8))
    a.fc_iter = 2 + static_cast<int>(s.draw(c.tier ? 3 : 2));
  std::ostringstream d;
  d << g.nx << "x" << g.ny << "x" << g.nz << " grid, spacing " << h
    << ", numbering " << numbering << (mix_neighs ? " neighbours mixed" : "")
    << ", priorities " << prio << describe(a);
  c.say(d.str());
  Out o = agglomerate(m, a);
  verify_blocks(c, g, dim, o);
  size_t levels = 1;
  // go on with the coarse graph while the extents are even
  while (g.nx % 4 == 0 && g.ny % 4 == 0 && (dim == 2 || g.nz % 4 == 0)) {
    Mesh m2;
    m2.dim = dim;
    m2.family = "coarse";
    comma::build_coarse_graph<Idx, Real, Int>(
      o.f2c, m.row, m.col, m.w, m.vol, m.cen, m.prio, m.nbnd, m2.row, m2.col,
      m2.w, m2.vol, m2.cen, m2.prio, m2.nbnd
    );
    Grid g2{g.nx / 2, g.ny / 2, dim == 3 ? g.nz / 2 : 1, {}};
    g2.pos.resize(m2.n());
    for (size_t i = 0; i < n && i < g.pos.size(); ++i)
      g2.pos[o.f2c[i]] = {
        g.pos[i][0] / 2, g.pos[i][1] / 2, dim == 3 ? g.pos[i][2] / 2 : 0
      };
    m = m2;
    g = g2;
    c.say(" next level");
    o = agglomerate(m, a);
    verify_blocks(c, g, dim, o);
    ++levels;
  }
  c.nontrivial = n > static_cast<size_t>(4 * a.goal);
  c.label(dim == 2 ? "2D" : "3D");
  c.label_if(levels > 1, "several levels");
  c.label_if(a.fc_iter > 1, "look-ahead");
  c.label_if(numbering == 3, "random numbering");
}
}  // namespace

const Property pbt::PROPERTY{
  "C30",
  "random even extents, spacing, numbering, neighbour order, priorities, seed "
  "order, neighbourhood and aspect ratio, repeated on the coarse graph while "
  "the extents stay even; non-trivial: more than four blocks",
  run, 12000, 100000, 16};
