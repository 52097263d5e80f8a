// Generators of valid mesh graphs and arguments (no CoMMA code here).
// All numeric data are small dyadic rationals, so that sums, differences and
// squared distances are exact whatever the order of the operations.
#pragma once
#include <algorithm>
#include <cmath>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "engine.h"

namespace pbt {

using Idx = unsigned long;
using Int = int;
using Real = double;

struct Mesh {
  int dim = 2;
  std::vector<Idx> row{0}, col;
  std::vector<Real> w, vol;
  std::vector<std::vector<Real>> cen;
  std::vector<Real> prio;
  std::vector<Int> nbnd;
  std::string family;
  size_t n() const { return row.size() - 1; }
  size_t deg(size_t i) const { return row[i + 1] - row[i]; }
  int nb(size_t i) const { return std::min<int>(nbnd[i], dim); }
  bool adjacent(Idx a, Idx b) const {
    for (Idx k = row[a]; k < row[a + 1]; ++k)
      if (col[k] == b) return true;
    return false;
  }
  Real weight(Idx a, Idx b) const {
    for (Idx k = row[a]; k < row[a + 1]; ++k)
      if (col[k] == b) return w[k];
    return 0;
  }
};

struct Args {
  std::vector<Idx> compliant;
  bool build_lines = true, is_aniso = false, odd = true;
  Real thr = 4.;
  int pool = 0;
  bool corr = false;
  int goal = 4, min = 4, max = 4;
  int ar = 0;
  int sing = 1;
  std::optional<Idx> max_line{};
  int coupling = 0;
  bool force_dir = true;
  int fc_iter = 1;
  int nbh = 0;
  std::vector<Idx> lidx, lines;  // input lines
};

struct Out {
  std::vector<Idx> f2c, lidx, lines;
  bool operator==(const Out &o) const {
    return f2c == o.f2c && lidx == o.lidx && lines == o.lines;
  }
  size_t n_cc() const {
    Idx m = 0;
    for (auto v : f2c) m = std::max(m, v + 1);
    return m;
  }
};

inline std::string describe(const Mesh &m) {
  std::ostringstream o;
  o << m.family << " dim=" << m.dim << " n=" << m.n() << " row=" << show(m.row)
    << " col=" << show(m.col) << " w=" << show(m.w) << " vol=" << show(m.vol)
    << " cen=";
  for (size_t i = 0; i < std::min<size_t>(m.n(), 3000); ++i) o << show(m.cen[i]);
  o << " prio=" << show(m.prio) << " nbnd=" << show(m.nbnd);
  return o.str();
}
inline std::string describe(const Args &a) {
  std::ostringstream o;
  o.precision(17);
  o << " card=" << a.goal << "/" << a.min << "/" << a.max
    << " pool=" << a.pool << " AR=" << a.ar << " corr=" << a.corr
    << " sing=" << a.sing << " fc_iter=" << a.fc_iter << " nbh=" << a.nbh;
  if (a.is_aniso) {
    o << " aniso build=" << a.build_lines << " odd=" << a.odd
      << " thr=" << a.thr << " coupling=" << a.coupling
      << " force_dir=" << a.force_dir << " max_line=";
    if (a.max_line)
      o << static_cast<long>(*a.max_line);
    else
      o << "none";
    o << " compliant=" << show(a.compliant) << " lidx=" << show(a.lidx)
      << " lines=" << show(a.lines);
  }
  return o.str();
}
inline std::string describe(const Out &x) {
  return " -> f2c=" + show(x.f2c) + " lidx=" + show(x.lidx)
    + " lines=" + show(x.lines);
}

// ------------------------------------------------------------------ builder
struct Builder {
  int dim;
  size_t n = 0;
  std::map<std::pair<Idx, Idx>, Real> edges;
  std::vector<std::vector<Real>> cen;
  std::vector<Real> vol;
  std::vector<Int> nbnd;
  Idx add(std::vector<Real> c, Real v, int b) {
    cen.push_back(std::move(c));
    vol.push_back(v);
    nbnd.push_back(b);
    return n++;
  }
  void link(Idx a, Idx b, Real w) {
    if (a == b) return;
    edges[{std::min(a, b), std::max(a, b)}] = w;
  }
};

struct GenOpts {
  size_t max_n = 60;  // rough upper bound on the number of cells
  bool stretched = false;  // favour boundary-layer like meshes
  bool extra_coord = true;  // centres may have 3 coordinates in 2D
  bool large = true;  // one mesh in a hundred with up to 600 cells
  int force_dim = 0;
  bool connected = false;  // no disjoint unions / isolated cells
  bool distinct_prio = false;
  bool fine = true;  // differences that single precision cannot resolve, too
  bool huge = false;  // regular grid of tens of thousands of cells
};

inline Real dyadic(Src &s) {  // positive
  switch (s.draw(6)) {
    case 0: return 1;
    case 1: return static_cast<Real>(1 + s.draw(8));
    case 2: return s.pick({0.5, 0.25, 0.125, 2., 4., 8., 16., 32.});
    case 3: return (1 + s.draw(64)) / 16.;
    case 4: return 1;
    default: return (512 + s.draw(1024)) / 1024.;
  }
}

inline void spacing(Src &s, size_t n, int kind, std::vector<Real> &h) {
  h.assign(n, 1.);
  switch (kind) {
    case 0: break;
    case 1: {  // constant
      const Real v = s.pick({1., 2., 4., 8., 16., 0.5, 0.25, 0.125, 0.0625, 3., 5.});
      h.assign(n, v);
      break;
    }
    case 2: {  // geometric growth (boundary layer)
      Real v = s.pick({1. / 64, 1. / 32, 1. / 16, 1. / 8});
      const Real r = s.pick({2., 1.5, 1.25});
      for (size_t i = 0; i < n; ++i) {
        h[i] = v;
        if (v < 2) v = std::floor(v * r * 1024 + 0.5) / 1024;
      }
      if (s.chance(1, 4)) std::reverse(h.begin(), h.end());
      break;
    }
    default:
      for (auto &v : h) v = dyadic(s);
  }
}

inline void gen_grid(Src &s, Builder &b, size_t budget, bool stretched) {
  const int d = b.dim;
  size_t nx, ny, nz = 1;
  if (d == 2) {
    const long top = budget > 150 ? 300 : 16;  // long lines, too
    nx = s.range(1, std::min<long>(top, std::max<long>(1, budget)));
    ny = s.range(1, std::min<long>(top, std::max<long>(1, budget / nx)));
  } else {
    const long top = budget > 150 ? 24 : 8;
    nx = s.range(1, std::min<long>(top, std::max<long>(1, budget)));
    ny = s.range(1, std::min<long>(top, std::max<long>(1, budget / nx)));
    nz = s.range(1, std::min<long>(top, std::max<long>(1, budget / (nx * ny))));
  }
  std::vector<Real> hx, hy, hz;
  spacing(s, nx, stretched ? s.draw(2) : s.draw(4), hx);
  spacing(s, ny, stretched ? 1 + s.draw(2) : s.draw(4), hy);
  if (d == 3)
    spacing(s, nz, stretched ? s.draw(2) : s.draw(4), hz);
  else
    hz.assign(1, 1.);
  const bool holes = s.chance(1, 4);
  const bool tri = d == 2 && s.chance(1, 4);
  std::vector<long> id(nx * ny * nz, -1), id2(nx * ny * nz, -1);
  auto at = [&](size_t i, size_t j, size_t k) { return (k * ny + j) * nx + i; };
  Real z = 0;
  for (size_t k = 0; k < nz; ++k) {
    Real y = 0;
    for (size_t j = 0; j < ny; ++j) {
      Real x = 0;
      for (size_t i = 0; i < nx; ++i) {
        const bool skip = holes && s.chance(1, 6);
        if (!skip) {
          int bnd = 0;
          if (i == 0) ++bnd;
          if (i + 1 == nx) ++bnd;
          if (j == 0) ++bnd;
          if (j + 1 == ny) ++bnd;
          if (d == 3) {
            if (k == 0) ++bnd;
            if (k + 1 == nz) ++bnd;
          }
          std::vector<Real> c{x + hx[i] / 2, y + hy[j] / 2};
          if (d == 3) c.push_back(z + hz[k] / 2);
          const Real v = hx[i] * hy[j] * hz[k];
          if (!tri) {
            id[at(i, j, k)] = b.add(c, v, bnd);
          } else {
            int bl = (i == 0) + (j == 0), bu = (i + 1 == nx) + (j + 1 == ny);
            id[at(i, j, k)] =
              b.add({x + hx[i] * 0.25, y + hy[j] * 0.25}, v / 2, bl);
            id2[at(i, j, k)] =
              b.add({x + hx[i] * 0.75, y + hy[j] * 0.75}, v / 2, bu);
            b.link(
              id[at(i, j, k)], id2[at(i, j, k)], std::max(hx[i], hy[j]) * 1.25
            );
          }
        }
        x += hx[i];
      }
      y += hy[j];
    }
    z += hz[k];
  }
  for (size_t k = 0; k < nz; ++k)
    for (size_t j = 0; j < ny; ++j)
      for (size_t i = 0; i < nx; ++i) {
        const long a = tri ? id2[at(i, j, k)] : id[at(i, j, k)];
        if (a < 0) continue;
        if (i + 1 < nx && id[at(i + 1, j, k)] >= 0)
          b.link(a, id[at(i + 1, j, k)], hy[j] * hz[k]);
        if (j + 1 < ny && id[at(i, j + 1, k)] >= 0)
          b.link(a, id[at(i, j + 1, k)], hx[i] * hz[k]);
        if (k + 1 < nz && id[at(i, j, k + 1)] >= 0)
          b.link(a, id[at(i, j, k + 1)], hx[i] * hy[j]);
      }
}

inline void gen_abstract(Src &s, Builder &b, size_t budget) {
  const int d = b.dim;
  const int kind = s.draw(7);
  const size_t cap = kind == 4 ? std::min<size_t>(budget, 14) : budget;
  const size_t n = s.range(1, std::max<long>(1, cap));
  const Idx base = b.n;
  // centres: distinct lattice points with optional jitter
  const bool jit = s.coin();
  std::set<std::vector<long>> used;
  const bool rnd_b = s.coin();
  for (size_t i = 0; i < n; ++i) {
    std::vector<long> p(d);
    const bool line = s.chance(1, 3);
    for (int k = 0; k < d; ++k)
      p[k] = line ? (k == 0 ? static_cast<long>(i) : 0) : s.draw(12);
    while (!used.insert(p).second) p[0] += 1;
    std::vector<Real> c(d);
    for (int k = 0; k < d; ++k)
      c[k] = p[k] + (jit ? s.draw(512) / 1024. : 0.);
    b.add(c, dyadic(s), rnd_b ? s.draw(6) : (i == 0 ? 1 : 0));
  }
  auto wgt = [&]() { return dyadic(s); };
  switch (kind) {
    case 0:  // path
      for (size_t i = 1; i < n; ++i) b.link(base + i - 1, base + i, wgt());
      break;
    case 1:  // cycle
      for (size_t i = 1; i < n; ++i) b.link(base + i - 1, base + i, wgt());
      if (n > 2) b.link(base, base + n - 1, wgt());
      break;
    case 2:  // star
      for (size_t i = 1; i < n; ++i) b.link(base, base + i, wgt());
      break;
    case 3:  // tree
    case 6:  // tree + extra edges
      for (size_t i = 1; i < n; ++i) b.link(base + s.draw(i), base + i, wgt());
      if (kind == 6 && n > 1) {
        const size_t extra = s.draw(2 * n);
        for (size_t e = 0; e < extra; ++e) {
          const Idx u = base + s.draw(n), v = base + s.draw(n);
          b.link(u, v, wgt());
        }
      }
      break;
    case 4:  // complete
      for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < i; ++j) b.link(base + i, base + j, wgt());
      break;
    default: {  // geometric: link near points, not necessarily connected
      const Real r = s.pick({2.5, 4., 6., 1.5});
      for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < i; ++j) {
          Real q = 0;
          for (int k = 0; k < d; ++k) {
            const Real e = b.cen[base + i][k] - b.cen[base + j][k];
            q += e * e;
          }
          if (q <= r * r) b.link(base + i, base + j, wgt());
        }
    }
  }
}

// Path, 2D or 3D grid with more cells than 16 bits can count, from few choices
constexpr size_t HUGE = 60000;
inline Mesh gen_huge(Src &s, const GenOpts &o) {
  Mesh m;
  const int shape = static_cast<int>(s.draw(3));
  m.dim = o.force_dim ? o.force_dim : shape == 2 ? 3 : 2;
  // more than 2^16 cells; twice as many to get more than 2^16 coarse cells
  size_t nx = 65537 + s.draw(4000), ny = 1, nz = 1;
  if (m.dim == 2 && s.coin()) nx *= 2;
  const size_t total = nx;
  if (m.dim == 3) {
    nx = 20 + s.draw(60);
    ny = 20 + s.draw(60);
    nz = total / (nx * ny) + 1;
  } else if (shape != 0) {
    nx = s.coin() ? 2 + s.draw(6) : 100 + s.draw(400);
    ny = total / nx + 1;
  }
  m.family = "huge grid " + std::to_string(nx) + "x" + std::to_string(ny) + "x"
    + std::to_string(nz);
  const Real hx = s.pick({1., 0.25, 4., 8., 0.125}),
             hy = s.pick({1., 0.25, 4., 8., 0.125}),
             hz = m.dim == 3 ? s.pick({1., 0.25, 4.}) : 1.;
  const size_t n = nx * ny * nz;
  // numbering: i -> (mul * i) mod n, or backwards
  const int number = static_cast<int>(s.draw(3));
  Idx mul = 1;
  if (number == 1) {
    mul = 12289;  // prime
    while (n % mul == 0) mul += 2;
  }
  auto id = [&](size_t i, size_t j, size_t k) {
    const size_t p = (k * ny + j) * nx + i;
    return number == 2 ? n - 1 - p : p * mul % n;
  };
  std::vector<std::vector<std::pair<Idx, Real>>> adj(n);
  m.vol.assign(n, hx * hy * hz);
  m.cen.resize(n);
  m.nbnd.assign(n, 0);
  auto link = [&](Idx a, Idx b, Real w) {
    adj[a].emplace_back(b, w);
    adj[b].emplace_back(a, w);
  };
  for (size_t k = 0; k < nz; ++k)
    for (size_t j = 0; j < ny; ++j)
      for (size_t i = 0; i < nx; ++i) {
        const Idx a = id(i, j, k);
        m.cen[a] = {(i + 0.5) * hx, (j + 0.5) * hy};
        if (m.dim == 3) m.cen[a].push_back((k + 0.5) * hz);
        m.nbnd[a] = (i == 0) + (i + 1 == nx) + (j == 0) + (j + 1 == ny);
        if (m.dim == 3) m.nbnd[a] += (k == 0) + (k + 1 == nz);
        if (i + 1 < nx) link(a, id(i + 1, j, k), hy * hz);
        if (j + 1 < ny) link(a, id(i, j + 1, k), hx * hz);
        if (k + 1 < nz) link(a, id(i, j, k + 1), hx * hy);
      }
  for (auto &l : adj) {
    std::sort(l.begin(), l.end());
    for (auto &[j, w] : l) {
      m.col.push_back(j);
      m.w.push_back(w);
    }
    m.row.push_back(m.col.size());
  }
  m.prio.resize(n);
  const int pk = o.distinct_prio ? 0 : static_cast<int>(s.draw(4));
  for (size_t i = 0; i < n; ++i)
    m.prio[i] = pk == 0 ? static_cast<Real>(n - i)
      : pk == 1         ? 1.
      : pk == 2         ? static_cast<Real>(i)
                        : static_cast<Real>(i * 7919 % 64);
  return m;
}

inline Mesh gen_mesh(Src &s, const GenOpts &o = {}) {
  if (o.huge) return gen_huge(s, o);
  Mesh m;
  m.dim = o.force_dim ? o.force_dim : 2 + static_cast<int>(s.draw(2));
  Builder b;
  b.dim = m.dim;
  // size class: mostly small, a few large ones
  const int cls = s.draw(200);
  const size_t budget = cls < 80 ? std::min<size_t>(o.max_n, 10)
    : cls < 160 ? std::min<size_t>(o.max_n, 30)
    : cls < 198 || !o.large ? o.max_n
    : std::max<size_t>(o.max_n, std::min<size_t>(10 * o.max_n, 600));
  int parts = 1;
  if (!o.connected && s.chance(1, 6)) parts = 2 + s.draw(2);
  for (int p = 0; p < parts; ++p) {
    const Idx first = b.n;
    int fam = o.stretched ? (s.chance(1, 5) ? 2 : 1) : s.draw(4);
    // 0, 1: grid; 2, 3: abstract
    if (fam <= 1) {
      gen_grid(s, b, std::max<size_t>(1, budget / parts), o.stretched || fam == 1);
      m.family += (p ? "+grid" : "grid");
    } else {
      gen_abstract(s, b, std::max<size_t>(1, budget / parts));
      m.family += (p ? "+abstract" : "abstract");
    }
    for (Idx i = first; i < b.n; ++i) b.cen[i][0] += 4096. * p;
  }
  if (!o.connected && s.chance(1, 12)) {
    const int k = 1 + s.draw(2);
    for (int i = 0; i < k; ++i) {
      std::vector<Real> c(m.dim, 0.);
      c[0] = -4096. * (i + 1);
      b.add(c, dyadic(s), s.draw(3));
    }
    m.family += "+isolated";
  }
  if (b.n == 0) b.add(std::vector<Real>(m.dim, 0.), 1., 1);
  if (o.connected) {  // link components with one extra edge
    std::vector<Idx> root(b.n);
    for (Idx i = 0; i < b.n; ++i) root[i] = i;
    auto find = [&](Idx x) {
      while (root[x] != x) x = root[x] = root[root[x]];
      return x;
    };
    for (auto &e : b.edges) root[find(e.first.first)] = find(e.first.second);
    for (Idx i = 1; i < b.n; ++i)
      if (find(i) != find(i - 1)) {
        b.link(i - 1, i, 1.);
        root[find(i)] = find(i - 1);
      }
  }
  const size_t n = b.n;
  // overrides
  if (s.chance(1, 5))
    for (auto &v : b.nbnd) v = static_cast<int>(s.draw(6));
  if (s.chance(1, 6))
    for (auto &e : b.edges) e.second = dyadic(s);
  if (s.chance(1, 8))
    for (auto &v : b.vol) v = dyadic(s);
  if (o.fine && s.chance(1, 16))
    for (auto &e : b.edges) e.second *= 1 + 0x1p-26 * s.draw(3);
  // numbering
  std::vector<Idx> perm(n);
  for (size_t i = 0; i < n; ++i) perm[i] = i;
  if (s.chance(1, 2)) s.shuffle(perm);
  std::vector<std::vector<std::pair<Idx, Real>>> adj(n);
  for (auto &[e, w] : b.edges) {
    adj[perm[e.first]].emplace_back(perm[e.second], w);
    adj[perm[e.second]].emplace_back(perm[e.first], w);
  }
  m.vol.resize(n);
  m.cen.resize(n);
  m.nbnd.resize(n);
  for (size_t i = 0; i < n; ++i) {
    m.vol[perm[i]] = b.vol[i];
    m.cen[perm[i]] = b.cen[i];
    m.nbnd[perm[i]] = b.nbnd[i];
  }
  const bool mix = s.chance(1, 3);
  for (size_t i = 0; i < n; ++i) {
    std::sort(adj[i].begin(), adj[i].end());
    if (mix) s.shuffle(adj[i]);
    for (auto &[j, w] : adj[i]) {
      m.col.push_back(j);
      m.w.push_back(w);
    }
    m.row.push_back(m.col.size());
  }
  // priorities
  m.prio.resize(n);
  int pk = s.draw(o.fine ? 8 : 6);
  if (o.distinct_prio) pk = s.coin() ? 0 : 3;
  std::vector<Idx> order(n);
  for (size_t i = 0; i < n; ++i) order[i] = i;
  if (pk == 3 || pk >= 6) s.shuffle(order);
  for (size_t i = 0; i < n; ++i) switch (pk) {
      case 0: m.prio[i] = static_cast<Real>(n - i); break;
      case 1: m.prio[i] = 1; break;
      case 2: m.prio[i] = static_cast<Real>(s.draw(4)); break;
      case 3: m.prio[i] = static_cast<Real>(order[i]); break;
      case 4: m.prio[i] = static_cast<Real>(s.range(0, 6)) - 3; break;
      case 5: m.prio[i] = -static_cast<Real>(1 + s.draw(3 * n)) / 4.; break;
      case 6: m.prio[i] = 0x1p33 + static_cast<Real>(order[i]); break;
      default: m.prio[i] = 0x1p-50 * static_cast<Real>(order[i]);
    }
  if (o.extra_coord && m.dim == 2 && s.chance(1, 6))
    for (auto &c : m.cen) c.push_back(0.);
  return m;
}

// ---------------------------------------------------------------- arguments
// disjoint chains of adjacent cells
inline void gen_lines(
  Src &s, const Mesh &m, std::vector<Idx> &lidx, std::vector<Idx> &lines
) {
  lidx.assign(1, 0);
  lines.clear();
  const size_t n = m.n();
  std::vector<bool> used(n, false);
  if (n > HUGE && s.coin()) {  // chains of the same length everywhere
    const size_t len = s.pick({2, 3, 4, 7, 100});
    for (Idx i = 0; i < n; ++i) {
      if (used[i]) continue;
      for (Idx cur = i, k = 0; k < len; ++k) {
        used[cur] = true;
        lines.push_back(cur);
        Idx e = m.row[cur];
        while (e < m.row[cur + 1] && used[m.col[e]]) ++e;
        if (e == m.row[cur + 1]) break;
        cur = m.col[e];
      }
      lidx.push_back(lines.size());
    }
    return;
  }
  const size_t nl = 1 + s.draw(4);
  for (size_t l = 0; l < nl; ++l) {
    Idx cur = n > HUGE && s.coin() ? 0 : s.draw(n);
    size_t tries = 0;
    while (used[cur] && tries++ < n) cur = (cur + 1) % n;
    if (used[cur]) break;
    // long lines run through most of a large mesh
    const bool longer = n > 100 && s.coin();
    const size_t len = longer ? n / 2 + s.draw(n / 2)
      : s.chance(1, 12)       ? s.draw(2)
                              : 2 + s.draw(9);
    size_t k = 0;
    while (k < len) {
      used[cur] = true;
      lines.push_back(cur);
      ++k;
      std::vector<Idx> nx;
      for (Idx e = m.row[cur]; e < m.row[cur + 1]; ++e)
        if (!used[m.col[e]]) nx.push_back(m.col[e]);
      if (nx.empty()) break;
      if (longer) {
        // towards the cell with fewest ways out
        auto ways = [&](Idx x) {
          size_t w = 0;
          for (Idx e = m.row[x]; e < m.row[x + 1]; ++e) w += !used[m.col[e]];
          return w;
        };
        cur = *std::min_element(nx.begin(), nx.end(), [&](Idx x, Idx y) {
          return ways(x) < ways(y);
        });
      } else {
        cur = nx[s.draw(nx.size())];
      }
    }
    lidx.push_back(lines.size());
  }
}

struct ArgOpts {
  int aniso = 1;  // 0 never, 1 sometimes, 2 always
  bool allow_corr = true;
  bool allow_iter = true;
  bool allow_max_line = true;
};

inline void gen_cards(Src &s, Args &a, size_t n = 0) {
  if (n > 150 && s.chance(1, 4)) {  // coarse cells of more than 127 cells
    a.min = static_cast<int>(s.range(2, 100));
    a.goal = std::max(a.min, static_cast<int>(s.range(100, 150)));
    a.max = a.goal + static_cast<int>(s.draw(6));
    return;
  }
  switch (s.draw(5)) {
    case 4:
      // large coarse cells: neighbourhoods beyond the default order
      a.min = static_cast<int>(s.range(2, 24));
      a.goal = std::max(a.min, static_cast<int>(s.range(6, 24)));
      a.max = a.goal + static_cast<int>(s.draw(6));
      break;
    case 0: a.goal = a.min = a.max = static_cast<int>(s.range(2, 8)); break;
    case 1:
      a.min = static_cast<int>(s.range(2, 6));
      a.goal = a.min + static_cast<int>(s.draw(4));
      a.max = a.goal + static_cast<int>(s.draw(4));
      break;
    case 2:
      a.min = 2;
      a.goal = a.min + static_cast<int>(s.draw(5));
      a.max = a.goal + static_cast<int>(s.draw(8));
      break;
    default:
      a.min = static_cast<int>(s.range(2, 4));
      a.goal = a.min + static_cast<int>(s.draw(2));
      a.max = a.goal + static_cast<int>(s.draw(3));
  }
}

inline void gen_aniso(Src &s, const Mesh &m, Args &a, const ArgOpts &o) {
  const size_t n = m.n();
  a.is_aniso = true;
  a.build_lines = !s.chance(1, 3);
  a.odd = !s.coin();
  // compliant cells
  a.compliant.clear();
  if (n > HUGE) {  // not one choice per cell
    const Idx period = s.pick({n + 1, Idx{4}, Idx{50}});
    for (Idx i = 0; i < n; ++i)
      if (i % period != 3) a.compliant.push_back(i);
  } else
  switch (s.draw(4)) {
    case 0:
    case 1:
      for (size_t i = 0; i < n; ++i) a.compliant.push_back(i);
      break;
    case 2:
      for (size_t i = 0; i < n; ++i)
        if (!s.chance(1, 3)) a.compliant.push_back(i);
      break;
    default:
      for (size_t i = 0; i < n; ++i)
        if (s.chance(1, 2)) a.compliant.push_back(i);
      s.shuffle(a.compliant);
  }
  // naming a cell twice changes nothing
  if (!a.compliant.empty() && s.chance(1, 8))
    a.compliant.push_back(a.compliant[s.draw(a.compliant.size())]);
  a.thr = s.pick({1.5, 4., 2., -1., 1., 8., 0.25, 3., 0.5, 0.75, 1.25, 16., 0.});
  a.coupling = s.chance(1, 3) ? 1 : 0;
  a.force_dir = !s.chance(1, 3);
  if (o.allow_max_line && s.chance(1, 3))
    a.max_line = 1 + (n > 100 && s.coin() ? s.draw(n) : s.draw(8));
  if (!a.build_lines) gen_lines(s, m, a.lidx, a.lines);
}

inline Args gen_args(Src &s, const Mesh &m, const ArgOpts &o = {}) {
  Args a;
  const size_t n = m.n();
  gen_cards(s, a, n > HUGE ? 0 : n);
  a.pool = s.pick({0, 1, 10, 11});
  a.ar = static_cast<int>(s.draw(10));
  a.nbh = static_cast<int>(s.draw(2));
  a.corr = o.allow_corr && s.coin();
  a.sing = 1;
  if (s.coin()) a.sing = static_cast<int>(s.range(1, a.min + 1));
  if (o.allow_iter && s.chance(1, 6) && n <= 40) {
    size_t dmax = 0;
    for (size_t i = 0; i < n; ++i) dmax = std::max(dmax, m.deg(i));
    a.fc_iter = 2;
    if (n <= 14 && dmax <= 6) a.fc_iter += static_cast<int>(s.draw(3));
    else if (dmax > 8 && n > 20) a.fc_iter = 1;
  }
  if (o.aniso == 2 || (o.aniso == 1 && s.chance(1, 3))) gen_aniso(s, m, a, o);
  return a;
}

// ------------------------------------------------------------------ helpers
// components of the subgraph induced by the cells where keep[i]
inline size_t count_components(const Mesh &m, const std::vector<Idx> &cells) {
  std::set<Idx> todo(cells.begin(), cells.end());
  size_t k = 0;
  while (!todo.empty()) {
    ++k;
    std::vector<Idx> st{*todo.begin()};
    todo.erase(todo.begin());
    while (!st.empty()) {
      const Idx u = st.back();
      st.pop_back();
      for (Idx e = m.row[u]; e < m.row[u + 1]; ++e) {
        auto it = todo.find(m.col[e]);
        if (it != todo.end()) {
          st.push_back(*it);
          todo.erase(it);
        }
      }
    }
  }
  return k;
}
inline bool is_connected(const Mesh &m, const std::vector<Idx> &cells) {
  return count_components(m, cells) <= 1;
}
inline std::vector<std::vector<Idx>> cells_of(const Out &o) {
  std::vector<std::vector<Idx>> r(o.n_cc());
  for (Idx i = 0; i < o.f2c.size(); ++i) r[o.f2c[i]].push_back(i);
  return r;
}

}  // namespace pbt
