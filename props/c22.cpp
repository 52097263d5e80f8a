// C22: invariance under exact rescaling, translation, monotone priorities and
// neighbour order
#include "common.h"
using namespace pbt;

static void run(Case &c) {
  GenOpts go;
  go.max_n = c.tier ? 120 : 50;
  go.stretched = c.s.chance(1, 2);
  const Mesh m = gen_mesh(c.s, go);
  ArgOpts ao;
  Args a = gen_args(c.s, m, ao);
  Mesh k = m;
  std::string what;
  const int steps = 1 + static_cast<int>(c.s.draw(2));
  bool bary = a.ar == 7 || a.ar == 8;
  for (int i = 0; i < steps; ++i) {
    int e = static_cast<int>(c.s.draw(7)) - 3;
    if (e == 0) e = 4;
    // far from one too, unless distances are compared with a tolerance
    if (a.ar != 8 && c.s.chance(1, 2)) e *= 10;
    const Real f = std::exp2(e);
    switch (c.s.draw(7)) {
      case 0: {
        what += " length*2^" + std::to_string(e);
        const Real fw = m.dim == 2 ? f : f * f;
        for (auto &w : k.w) w *= fw;
        for (auto &v : k.vol) v *= fw * f;
        for (auto &p : k.cen)
          for (auto &x : p) x *= f;
        break;
      }
      case 1:
        what += " weights*2^" + std::to_string(e);
        for (auto &w : k.w) w *= f;
        break;
      case 2:
        what += " volumes*2^" + std::to_string(e);
        for (auto &v : k.vol) v *= f;
        break;
      case 3:
        if (bary) break;
        what += " translation";
        for (size_t x = 0; x < k.cen[0].size(); ++x) {
          const Real t = static_cast<Real>(c.s.draw(512)) - 256;
          for (auto &p : k.cen) p[x] += t;
        }
        break;
      case 4: {
        what += " priorities";
        std::vector<Real> v(k.prio);
        std::sort(v.begin(), v.end());
        v.erase(std::unique(v.begin(), v.end()), v.end());
        std::map<Real, Real> to;
        Real x = static_cast<Real>(c.s.draw(2000)) / 4 - 300;
        for (auto p : v) {
          to[p] = x;
          x += static_cast<Real>(1 + c.s.draw(40)) / 8;
        }
        for (auto &p : k.prio) p = to[p];
        break;
      }
      case 5: {
        if (bary) break;
        what += " axes";
        const size_t d = k.cen[0].size();
        std::vector<size_t> perm(d);
        std::vector<Real> sgn(d);
        for (size_t x = 0; x < d; ++x) {
          perm[x] = x;
          sgn[x] = c.s.coin() ? -1 : 1;
        }
        c.s.shuffle(perm);
        for (auto &p : k.cen) {
          const auto q = p;
          for (size_t x = 0; x < d; ++x) p[x] = sgn[x] * q[perm[x]];
        }
        break;
      }
      default: {
        // seeds next to lines are queued in the order they are met, the cells
        // of a small coarse cell are corrected in an unspecified one, and
        // rounded sums depend on the order
        if (a.is_aniso || (a.corr && sing_eff(a) > 1) || a.ar > 4) break;
        what += " neighbour order";
        for (Idx r = 0; r < k.n(); ++r) {
          std::vector<std::pair<Idx, Real>> v;
          for (Idx x = k.row[r]; x < k.row[r + 1]; ++x)
            v.emplace_back(k.col[x], k.w[x]);
          c.s.shuffle(v);
          for (Idx x = k.row[r]; x < k.row[r + 1]; ++x) {
            k.col[x] = v[x - k.row[r]].first;
            k.w[x] = v[x - k.row[r]].second;
          }
        }
      }
    }
  }
  c.say(describe(m) + describe(a) + " transformed:" + what + describe(k));
  const Out x = agglomerate(m, a), y = agglomerate(k, a);
  PBT_CHECK(
    c, x.f2c == y.f2c, "map " << show(y.f2c) << " instead of " << show(x.f2c)
                              << " after" << what
  );
  PBT_CHECK(
    c, x.lidx == y.lidx && x.lines == y.lines,
    "lines " << show(y.lidx) << show(y.lines) << " instead of " << show(x.lidx)
             << show(x.lines) << " after" << what
  );
  c.nontrivial = m.n() > 4 && !what.empty() && cells_of(x).size() > 1;
  if (steps == 1 && !what.empty()) c.label(what.substr(1, what.find('*') - 1));
  std_labels(c, m, a, x);
}

const Property pbt::PROPERTY{
  "C22",
  "random mesh graph x random accepted arguments x one or two exact "
  "transformations (scales, translation, axes, priorities, neighbour order); "
  "non-trivial: more than four cells, more than one coarse cell and at least "
  "one transformation",
  run, 40000, 400000};
