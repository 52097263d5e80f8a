// C35: the parts of a disconnected mesh are coarsened as if they were alone
#include "common.h"
using namespace pbt;

namespace {
void run(Case &c) {
  Src &s = c.s;
  GenOpts go;
  go.max_n = c.tier ? 90 : 40;
  go.force_dim = 2 + static_cast<int>(s.draw(2));
  go.extra_coord = false;
  const size_t np = 2 + s.draw(c.tier ? 3 : 2);
  std::vector<Mesh> part;
  for (size_t k = 0; k < np; ++k) part.push_back(gen_mesh(s, go));
  // which cell comes next: the order inside a part is kept
  std::vector<size_t> turn;
  for (size_t k = 0; k < np; ++k) turn.insert(turn.end(), part[k].n(), k);
  if (s.coin()) s.shuffle(turn);
  std::vector<std::vector<Idx>> id(np);
  for (Idx i = 0; i < turn.size(); ++i) id[turn[i]].push_back(i);
  Mesh m;
  m.dim = go.force_dim;
  m.family = "union";
  std::vector<Idx> at(np, 0);
  for (const auto k : turn) {
    const Mesh &p = part[k];
    const Idx i = at[k]++;
    for (Idx e = p.row[i]; e < p.row[i + 1]; ++e) {
      m.col.push_back(id[k][p.col[e]]);
      m.w.push_back(p.w[e]);
    }
    m.row.push_back(m.col.size());
    m.vol.push_back(p.vol[i]);
    m.cen.push_back(p.cen[i]);
    m.cen.back()[0] += static_cast<Real>(4096 * k);
    m.prio.push_back(p.prio[i]);
    m.nbnd.push_back(p.nbnd[i]);
  }
  Args a = gen_args(s, m);
  // a single front or a single first cell serves the parts in turn
  a.pool = 0;
  // the cells of a small coarse cell are corrected in an unspecified order
  if (sing_eff(a) > 1 && a.corr) a.sing = 1;
  c.say(describe(m) + describe(a));
  const Out all = agglomerate(m, a);
  c.say(describe(all));
  size_t cells = 0;
  for (size_t k = 0; k < np; ++k) {
    std::map<Idx, Idx> loc;
    for (Idx i = 0; i < id[k].size(); ++i) loc[id[k][i]] = i;
    Mesh p = part[k];
    for (auto &x : p.cen) x[0] += static_cast<Real>(4096 * k);
    Args b = a;
    b.compliant.clear();
    for (const auto x : a.compliant)
      if (loc.count(x)) b.compliant.push_back(loc[x]);
    if (!a.lidx.empty()) {
      b.lidx = {0};
      b.lines.clear();
      for (size_t l = 0; l + 1 < a.lidx.size(); ++l) {
        for (Idx e = a.lidx[l]; e < a.lidx[l + 1]; ++e)
          if (loc.count(a.lines[e])) b.lines.push_back(loc[a.lines[e]]);
        if (b.lines.size() > b.lidx.back()) b.lidx.push_back(b.lines.size());
      }
    }
    const Out one = agglomerate(p, b);
    // same groups, in the same order
    std::map<Idx, Idx> ren;
    for (Idx i = 0; i < p.n(); ++i) {
      const auto it = ren.emplace(one.f2c[i], all.f2c[id[k][i]]).first;
      PBT_CHECK(
        c, it->second == all.f2c[id[k][i]],
        "part " << k << " alone: " << show(one.f2c) << ", cell " << i
      );
    }
    Idx last = 0;
    for (const auto &x : ren) {
      PBT_CHECK(
        c, x.first == 0 || x.second > last,
        "part " << k << " alone: " << show(one.f2c)
      );
      last = x.second;
    }
    if (aniso_active(a)) {
      std::set<Idx> mine;
      for (const auto &x : ren) mine.insert(x.second);
      std::vector<std::vector<Idx>> want, got;
      for (size_t l = 0; l + 1 < one.lidx.size(); ++l) {
        if (one.lidx[l] == one.lidx[l + 1]) continue;  // of one cell at most
        want.emplace_back();
        for (Idx e = one.lidx[l]; e < one.lidx[l + 1]; ++e)
          want.back().push_back(ren.at(one.lines[e]));
      }
      for (size_t l = 0; l + 1 < all.lidx.size(); ++l)
        if (all.lidx[l] < all.lidx[l + 1] && mine.count(all.lines[all.lidx[l]]))
          got.emplace_back(
            all.lines.begin() + all.lidx[l], all.lines.begin() + all.lidx[l + 1]
          );
      PBT_CHECK(
        c, want == got,
        "lines of part " << k << " alone: " << show(one.lidx) << show(one.lines)
      );
      c.label_if(!got.empty(), "lines");
    }
    cells += p.n() > 3;
  }
  c.nontrivial = cells > 1;
  std_labels(c, m, a, all);
}
}  // namespace

const Property pbt::PROPERTY{
  "C35",
  "two to four random meshes put side by side, their cells numbered one mesh "
  "after the other or interleaved x random arguments; non-trivial: at least "
  "two of them with more than three cells",
  run, 15000, 150000};
