// C33: renumbering the cells only renames them when priorities are distinct
#include "model.h"
using namespace pbt;

namespace {
Mesh renumber(const Mesh &m, const std::vector<Idx> &to) {
  const size_t n = m.n();
  std::vector<Idx> from(n);
  for (Idx i = 0; i < n; ++i) from[to[i]] = i;
  Mesh k;
  k.dim = m.dim;
  k.family = m.family;
  for (Idx j = 0; j < n; ++j) {
    const Idx i = from[j];
    for (Idx e = m.row[i]; e < m.row[i + 1]; ++e) {
      k.col.push_back(to[m.col[e]]);
      k.w.push_back(m.w[e]);
    }
    k.row.push_back(k.col.size());
    k.vol.push_back(m.vol[i]);
    k.cen.push_back(m.cen[i]);
    k.prio.push_back(m.prio[i]);
    k.nbnd.push_back(m.nbnd[i]);
  }
  return k;
}
// whether building lines may have to compare IDs
bool id_matters(const Mesh &m, const Args &a) {
  for (Idx c = 0; c < m.n(); ++c) {
    std::set<Real> seen;
    for (Idx e = m.row[c]; e < m.row[c + 1]; ++e)
      if (!seen
             .insert(
               a.coupling == 1 ? sqdist(m.cen[c], m.cen[m.col[e]]) : m.w[e]
             )
             .second)
        return true;
  }
  return false;
}

void run(Case &c) {
  Src &s = c.s;
  GenOpts go;
  go.max_n = c.tier ? 140 : 70;
  go.distinct_prio = true;
  go.stretched = s.chance(1, 4);
  Mesh m = gen_mesh(s, go);
  const size_t n = m.n();
  Args a = gen_args(s, m);
  // the cells of a small coarse cell are corrected in an unspecified order
  if (sing_eff(a) > 1 && a.corr) a.sing = 1;
  if (aniso_active(a) && a.build_lines && id_matters(m, a)) {
    // all weights different
    std::map<std::pair<Idx, Idx>, Real> eps;
    for (Idx i = 0; i < n; ++i)
      for (Idx e = m.row[i]; e < m.row[i + 1]; ++e) {
        const auto key = std::minmax(i, m.col[e]);
        const auto it
          = eps.emplace(key, std::ldexp(static_cast<Real>(eps.size() + 1), -20))
              .first;
        m.w[e] *= 1 + it->second;
      }
    a.coupling = 0;
    if (id_matters(m, a)) {
      c.label("equal weights");
      return;
    }
  }
  std::vector<Idx> to(n);
  for (Idx i = 0; i < n; ++i) to[i] = i;
  s.shuffle(to);
  const Mesh k = renumber(m, to);
  Args b = a;
  for (auto &x : b.compliant) x = to[x];
  if (s.coin()) s.shuffle(b.compliant);
  for (auto &x : b.lines) x = to[x];
  c.say(describe(m) + describe(a) + " renumbered " + show(to));
  if (aniso_active(a) && a.build_lines) {
    try {
      build_lines_model(m, a);
    } catch (const Abandon &x) {
      if (std::string(x.why) == "equally aligned") {
        c.label("equally aligned");
        return;
      }
    }
  }
  const Out x = agglomerate(m, a), y = agglomerate(k, b);
  c.say(describe(x));
  PBT_CHECK(c, x.f2c.size() == n && y.f2c.size() == n, "sizes");
  for (Idx i = 0; i < n; ++i)
    PBT_CHECK(
      c, x.f2c[i] == y.f2c[to[i]],
      "cell " << i << " is in coarse cell " << x.f2c[i] << ", but in "
              << y.f2c[to[i]] << " once renumbered " << to[i] << ": "
              << show(y.f2c)
    );
  if (aniso_active(a))
    PBT_CHECK(
      c, x.lidx == y.lidx && x.lines == y.lines,
      "lines " << show(y.lidx) << show(y.lines) << " instead of "
               << show(x.lidx) << show(x.lines)
    );
  c.nontrivial = n > 6 && cells_of(x).size() > 2;
  c.label_if(aniso_active(a) && a.build_lines && !x.lines.empty(), "built lines");
  std_labels(c, m, a, x);
}
}  // namespace

const Property pbt::PROPERTY{
  "C33",
  "random mesh graph with pairwise distinct priorities x random accepted "
  "arguments x random renumbering of the cells; non-trivial: more than six "
  "cells and more than two coarse cells",
  run, 40000, 400000};
