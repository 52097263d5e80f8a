// Helpers of the demonstrations
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "CoMMA/CoMMA.h"

using I = unsigned long;
using V = std::vector<I>;

#define EXPECT(cond)                                             \
  do {                                                           \
    if (!(cond)) {                                               \
      fprintf(stderr, "line %d: expected %s\n", __LINE__, #cond); \
      exit(1);                                                   \
    }                                                            \
  } while (0)

struct Mesh {
  int dim = 2;
  V row{0}, col;
  std::vector<double> w, vol, prio;
  std::vector<std::vector<double>> cen;
  std::vector<int> nb;
  I n() const { return row.size() - 1; }
};
// edges: (a, b, weight)
inline Mesh make(
  int dim,
  I n,
  const std::vector<std::tuple<I, I, double>> &edges,
  const std::vector<std::vector<double>> &cen,
  const std::vector<int> &nb = {},
  const std::vector<double> &prio = {},
  const std::vector<double> &vol = {}
) {
  Mesh m;
  m.dim = dim;
  std::vector<std::map<I, double>> adj(n);
  for (auto &[a, b, w] : edges) adj[a][b] = adj[b][a] = w;
  for (auto &r : adj) {
    for (auto &[k, w] : r) {
      m.col.push_back(k);
      m.w.push_back(w);
    }
    m.row.push_back(m.col.size());
  }
  m.cen = cen;
  m.nb = nb.empty() ? std::vector<int>(n, 0) : nb;
  m.vol = vol.empty() ? std::vector<double>(n, 1.) : vol;
  if (prio.empty())
    for (I i = 0; i < n; ++i) m.prio.push_back(n - i);
  else
    m.prio = prio;
  return m;
}
inline Mesh grid(
  int nx, int ny, int nz = 1, double hx = 1, double hy = 1, double hz = 1,
  bool three = false
) {
  const bool d3 = three || nz > 1;
  std::vector<std::tuple<I, I, double>> e;
  std::vector<std::vector<double>> c;
  std::vector<int> nb;
  auto id = [&](int i, int j, int k) -> I { return (k * ny + j) * nx + i; };
  for (int k = 0; k < nz; ++k)
    for (int j = 0; j < ny; ++j)
      for (int i = 0; i < nx; ++i) {
        std::vector<double> p{(i + .5) * hx, (j + .5) * hy};
        if (d3) p.push_back((k + .5) * hz);
        c.push_back(p);
        nb.push_back(
          (i == 0) + (i == nx - 1) + (j == 0) + (j == ny - 1)
          + (d3 ? (k == 0) + (k == nz - 1) : 0)
        );
        if (i + 1 < nx) e.emplace_back(id(i, j, k), id(i + 1, j, k), hy * hz);
        if (j + 1 < ny) e.emplace_back(id(i, j, k), id(i, j + 1, k), hx * hz);
        if (k + 1 < nz) e.emplace_back(id(i, j, k), id(i, j, k + 1), hx * hy);
      }
  Mesh m = make(d3 ? 3 : 2, nx * ny * nz, e, c, nb);
  for (auto &v : m.vol) v = hx * hy * hz;
  return m;
}
struct Args {
  V compliant{};
  bool build = true, aniso = false, odd = true;
  double thr = 4.;
  int pool = 0;
  bool corr = false;
  int goal = 4, min = 4, max = 4, ar = 0, sing = 1;
  std::optional<I> max_line{};
  int coupling = 0;
  bool dir = true;
  int iter = 1, nbh = 0;
  V lidx{}, lines{};
};
struct Out {
  V f2c, lidx, lines;
  I n_cc() const { return *std::max_element(f2c.begin(), f2c.end()) + 1; }
  std::vector<V> ccs() const {
    std::vector<V> r(n_cc());
    for (I i = 0; i < f2c.size(); ++i) r[f2c[i]].push_back(i);
    return r;
  }
};
inline Out run(const Mesh &m, const Args &a) {
  Out o;
  o.lidx = a.lidx;
  o.lines = a.lines;
  comma::agglomerate_one_level<I, double, int>(
    m.row, m.col, m.w, m.vol, m.cen, m.prio, a.compliant, m.nb, a.build,
    a.aniso, a.odd, a.thr, static_cast<comma::CoMMASeedsPoolT>(a.pool), o.f2c,
    o.lidx, o.lines, a.corr, m.dim, a.goal, a.min, a.max,
    static_cast<comma::CoMMAAspectRatioT>(a.ar), a.sing, a.max_line,
    static_cast<comma::CoMMACellCouplingT>(a.coupling), a.dir, a.iter,
    static_cast<comma::CoMMANeighbourhoodT>(a.nbh)
  );
  return o;
}
inline V all_cells(const Mesh &m) {
  V r;
  for (I i = 0; i < m.n(); ++i) r.push_back(i);
  return r;
}
inline bool adjacent(const Mesh &m, I a, I b) {
  return std::find(m.col.begin() + m.row[a], m.col.begin() + m.row[a + 1], b)
    != m.col.begin() + m.row[a + 1];
}
inline bool connected(const Mesh &m, const V &cells) {
  std::set<I> todo(cells.begin(), cells.end());
  if (todo.empty()) return true;
  V st{*todo.begin()};
  todo.erase(todo.begin());
  while (!st.empty()) {
    const I u = st.back();
    st.pop_back();
    for (I e = m.row[u]; e < m.row[u + 1]; ++e)
      if (todo.erase(m.col[e])) st.push_back(m.col[e]);
  }
  return todo.empty();
}
inline void print(const char *t, const V &v) {
  printf("%s:", t);
  for (auto x : v) printf(" %lu", x);
  printf("\n");
}
// small deterministic generator
struct Rnd {
  unsigned long s = 88172645463325252UL;
  unsigned long operator()(unsigned long n) {
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    return (s >> 11) % n;
  }
};
// connected random graph on a lattice
inline Mesh random_mesh(Rnd &r, I n, int dim = 2) {
  std::vector<std::tuple<I, I, double>> e;
  std::vector<std::vector<double>> c;
  std::vector<int> nb;
  std::vector<double> prio, vol;
  for (I i = 0; i < n; ++i) {
    if (i) e.emplace_back(i - 1 - r(std::min<I>(i, 4)), i, 1 + r(8));
    std::vector<double> p{double(i % 7) + r(8) / 16., double(i / 7) + r(8) / 16.};
    if (dim == 3) p.push_back(r(3));
    c.push_back(p);
    nb.push_back(r(4));
    prio.push_back(r(n));
    vol.push_back(1 + r(4));
  }
  for (I k = 0; k < n; ++k) {
    const I a = r(n), b = r(n);
    if (a != b && (a > b ? a - b : b - a) < 8) e.emplace_back(a, b, 1 + r(8));
  }
  return make(dim, n, e, c, nb, prio, vol);
}
// digest of results
inline unsigned long digest(const V &v, unsigned long h = 1469598103934665603UL) {
  for (auto x : v) h = (h ^ (x + 1)) * 1099511628211UL;
  return h;
}
