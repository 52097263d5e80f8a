// C16: coarse graph = quotient of the fine graph
#include "common.h"
using namespace pbt;

static bool close(Real a, Real b) {
  return std::fabs(a - b) <= 1e-10 * std::max({1., std::fabs(a), std::fabs(b)});
}

static void run(Case &c) {
  Src &s = c.s;
  GenOpts go;
  go.max_n = c.tier ? 120 : 60;
  go.huge = c.huge;
  Mesh m = gen_mesh(s, go);
  const size_t n = m.n();
  const bool sym = c.huge || !s.chance(1, 4);
  if (!sym)
    for (auto &w : m.w) w = dyadic(s);
  // fine-to-coarse map: any contiguous map, or one of the library
  std::vector<Idx> f2c(n);
  const int kind = s.draw(3);
  if (kind == 2) {
    ArgOpts ao;
    ao.allow_iter = false;
    f2c = agglomerate(m, gen_args(s, m, ao)).f2c;
  } else {
    const size_t N = 1 + s.draw(n);
    if (c.huge)
      for (size_t i = 0; i < n; ++i) f2c[i] = kind ? i % N : i * N / n;
    std::vector<Idx> ids(c.huge ? 0 : n);
    for (size_t i = 0; i < ids.size(); ++i) ids[i] = i;
    s.shuffle(ids);
    for (size_t i = 0; i < ids.size(); ++i) f2c[ids[i]] = i < N ? i : s.draw(N);
  }
  c.say(describe(m) + " f2c=" + show(f2c));
  size_t N = 0;
  for (auto v : f2c) N = std::max(N, v + 1);
  // outputs hold garbage beforehand
  const size_t g = s.draw(4);
  std::vector<Idx> ci(g, 7), ca(g, 9);
  std::vector<Real> cw(g, 5.), cv(g, 6.), cp(g, 1000.);
  std::vector<std::vector<Real>> cc(g, std::vector<Real>(1, 3.));
  std::vector<Int> cb(g, 55);
  comma::build_coarse_graph<Idx, Real, Int>(
    f2c, m.row, m.col, m.w, m.vol, m.cen, m.prio, m.nbnd, ci, ca, cw, cv, cc,
    cp, cb
  );
  // definition
  std::vector<std::map<Idx, Real>> adj(N);
  std::vector<Real> vol(N, 0.), pr(N, -1e300);
  std::vector<std::vector<Real>> cen(N, std::vector<Real>(m.cen[0].size(), 0.));
  std::vector<Int> nb(N, -1);
  size_t crossing = 0;
  bool multi = false;
  for (size_t i = 0; i < n; ++i) {
    const Idx a = f2c[i];
    vol[a] += m.vol[i];
    pr[a] = std::max(pr[a], m.prio[i]);
    nb[a] = std::max(nb[a], m.nbnd[i]);
    for (size_t k = 0; k < cen[a].size(); ++k) cen[a][k] += m.vol[i] * m.cen[i][k];
    for (Idx e = m.row[i]; e < m.row[i + 1]; ++e)
      if (f2c[m.col[e]] != a) {
        multi = multi || adj[a].count(f2c[m.col[e]]);
        adj[a][f2c[m.col[e]]] += m.w[e];
        ++crossing;
      }
  }
  PBT_CHECK(c, ci.size() == N + 1 && ci[0] == 0, "offsets have wrong size or start");
  PBT_CHECK(c, ca.size() == ci[N] && cw.size() == ci[N], "adjacency sizes");
  PBT_CHECK(
    c,
    cv.size() == N && cc.size() == N && cp.size() == N && cb.size() == N,
    "size of volumes, centres, priorities or boundary counts"
  );
  for (size_t a = 0; a < N; ++a) {
    PBT_CHECK(c, ci[a] <= ci[a + 1], "offsets decrease");
    PBT_CHECK(
      c, ci[a + 1] - ci[a] == adj[a].size(),
      "coarse cell " << a << " has " << ci[a + 1] - ci[a]
                     << " neighbours instead of " << adj[a].size()
    );
    std::set<Idx> seen;
    for (Idx e = ci[a]; e < ci[a + 1]; ++e) {
      PBT_CHECK(c, ca[e] != a, "self edge of coarse cell " << a);
      PBT_CHECK(c, seen.insert(ca[e]).second, "neighbour twice");
      auto it = adj[a].find(ca[e]);
      PBT_CHECK(c, it != adj[a].end(), "coarse edge " << a << "-" << ca[e] << " does not exist");
      PBT_CHECK(
        c, close(it->second, cw[e]),
        "weight of coarse edge " << a << "-" << ca[e] << " is " << cw[e]
                                 << " instead of " << it->second
      );
    }
    PBT_CHECK(c, close(vol[a], cv[a]), "volume of " << a << ": " << cv[a] << " instead of " << vol[a]);
    PBT_CHECK(c, pr[a] == cp[a], "priority of " << a << ": " << cp[a] << " instead of " << pr[a]);
    PBT_CHECK(c, nb[a] == cb[a], "boundary count of " << a << ": " << cb[a] << " instead of " << nb[a]);
    PBT_CHECK(c, cc[a].size() == cen[a].size(), "dimension of centre");
    for (size_t k = 0; k < cen[a].size(); ++k)
      PBT_CHECK(
        c, close(cen[a][k] / vol[a], cc[a][k]),
        "centre of " << a << " along " << k << ": " << cc[a][k]
                     << " instead of " << cen[a][k] / vol[a]
      );
  }
  if (sym)
    for (size_t a = 0; a < N; ++a)
      for (Idx e = ci[a]; e < ci[a + 1]; ++e) {
        bool back = false;
        for (Idx f = ci[ca[e]]; f < ci[ca[e] + 1]; ++f)
          if (ca[f] == a) back = close(cw[e], cw[f]);
        PBT_CHECK(c, back, "coarse edge " << a << "-" << ca[e] << " not symmetric");
      }
  c.nontrivial = N >= 2 && N < n && crossing > 0;
  c.label_if(multi, "several fine edges summed");
  c.label_if(kind == 2, "map of the library");
  c.label_if(!sym, "asymmetric weights");
}

const Property pbt::PROPERTY{
  "C16",
  "random mesh graph x (random contiguous map, not necessarily connected, or a "
  "map computed by the library); non-trivial: two or more coarse cells, fewer "
  "than fine ones, at least one coarse edge",
  run, 100000, 800000, 16};
