// C15: chained levels
#include "common.h"
using namespace pbt;

static bool close(Real a, Real b) {
  return std::fabs(a - b) <= 1e-9 * std::max({1., std::fabs(a), std::fabs(b)});
}

static void run(Case &c) {
  Src &s = c.s;
  GenOpts go;
  go.max_n = c.tier ? 160 : 80;
  go.huge = c.huge;
  go.stretched = s.chance(1, 3);
  const Mesh fine = gen_mesh(s, go);
  const size_t n0 = fine.n();
  c.say(describe(fine));
  Mesh m = fine;
  std::vector<Idx> to_cur(n0);
  for (Idx i = 0; i < n0; ++i) to_cur[i] = i;
  const int levels = 2 + s.draw(4);
  const bool aniso = s.coin();
  std::vector<Idx> lidx, lines;
  Real vol0 = 0;
  std::vector<Real> mom0(m.cen[0].size(), 0.);
  for (size_t i = 0; i < n0; ++i) {
    vol0 += m.vol[i];
    for (size_t k = 0; k < mom0.size(); ++k) mom0[k] += m.vol[i] * m.cen[i][k];
  }
  int done = 0, with_lines = 0;
  for (int l = 0; l < levels; ++l) {
    ArgOpts ao;
    ao.aniso = (l == 0 && aniso) ? 2 : 0;
    ao.allow_iter = false;
    Args a = gen_args(s, m, ao);
    if (l == 0 && aniso) {
      a.build_lines = true;
      a.lidx.clear();
      a.lines.clear();
    }
    if (l > 0 && aniso) {
      // lines as returned by the previous level
      a.is_aniso = true;
      a.build_lines = false;
      a.odd = s.coin();
      a.lidx = lidx;
      a.lines = lines;
      const auto sz = lidx.empty() ? 0 : lidx.back();
      PBT_CHECK(c, sz == lines.size(), "returned lines are inconsistent");
    }
    c.say(" | level " + std::to_string(l) + describe(a));
    Out o;
    try {
      o = agglomerate(m, a);
    } catch (const std::exception &e) {
      c.fail(
        "level " + std::to_string(l) + " rejected the data returned by the "
        "previous one: " + e.what()
      );
    }
    c.say(describe(o));
    PBT_CHECK(c, o.f2c.size() == m.n(), "size of the fine-to-coarse map");
    const auto ccs = cells_of(o);
    for (size_t i = 0; i < ccs.size(); ++i) {
      PBT_CHECK(c, !ccs[i].empty(), "level " << l << ": empty coarse cell " << i);
      PBT_CHECK(c, is_connected(m, ccs[i]), "level " << l << ": coarse cell " << i << " not connected");
    }
    Mesh k;
    k.dim = m.dim;
    comma::build_coarse_graph<Idx, Real, Int>(
      o.f2c, m.row, m.col, m.w, m.vol, m.cen, m.prio, m.nbnd, k.row, k.col, k.w,
      k.vol, k.cen, k.prio, k.nbnd
    );
    PBT_CHECK(c, k.n() == ccs.size(), "size of the coarse graph");
    for (auto &x : to_cur) x = o.f2c[x];
    // connected on the finest mesh
    std::vector<std::vector<Idx>> on_fine(k.n());
    for (Idx i = 0; i < n0; ++i) on_fine[to_cur[i]].push_back(i);
    for (size_t i = 0; i < k.n(); ++i)
      PBT_CHECK(
        c, is_connected(fine, on_fine[i]),
        "level " << l << ": coarse cell " << i << " not connected on the finest mesh"
      );
    // conservation
    Real vol = 0;
    std::vector<Real> mom(mom0.size(), 0.);
    for (size_t i = 0; i < k.n(); ++i) {
      vol += k.vol[i];
      for (size_t x = 0; x < mom.size(); ++x) mom[x] += k.vol[i] * k.cen[i][x];
    }
    PBT_CHECK(c, close(vol, vol0), "level " << l << ": volume " << vol << " instead of " << vol0);
    for (size_t x = 0; x < mom.size(); ++x)
      PBT_CHECK(
        c, close(mom[x] / vol, mom0[x] / vol0),
        "level " << l << ": centre of mass " << mom[x] / vol << " instead of "
                 << mom0[x] / vol0
      );
    // returned lines
    if (aniso_active(a)) {
      lidx = o.lidx;
      lines = o.lines;
      std::set<Idx> seen;
      for (size_t i = 0; i + 1 < lidx.size(); ++i) {
        PBT_CHECK(c, lidx[i] <= lidx[i + 1] && lidx[i + 1] <= lines.size(), "offsets of lines");
        for (Idx j = lidx[i]; j < lidx[i + 1]; ++j) {
          PBT_CHECK(c, lines[j] < k.n(), "line cell " << lines[j] << " does not exist");
          PBT_CHECK(c, seen.insert(lines[j]).second, "cell " << lines[j] << " twice in lines");
          if (j > lidx[i])
            PBT_CHECK(
              c, k.adjacent(lines[j - 1], lines[j]),
              "level " << l << ": cells " << lines[j - 1] << " and " << lines[j]
                       << " of a line are not adjacent"
            );
        }
      }
      if (!lines.empty()) ++with_lines;
    }
    m = k;
    m.family = "coarse";
    ++done;
    if (m.n() == 1 && s.coin()) break;
  }
  c.nontrivial = done >= 2 && to_cur.size() >= 8;
  c.label_if(with_lines >= 2, "lines on two or more levels");
  c.label_if(done >= 4, "four or more levels");
}

const Property pbt::PROPERTY{
  "C15",
  "random mesh graph x two to five levels of agglomeration and coarse graph, "
  "each with random arguments, half of them following the returned lines; "
  "non-trivial: two or more levels on eight or more cells",
  run, 40000, 300000, 8};
