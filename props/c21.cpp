// C21: documented argument fallbacks are exact equivalences
#include "common.h"
using namespace pbt;

using L = long;
static Out call_signed(
  const Mesh &m, Args a, std::optional<L> ml, int coupling
) {
  std::vector<L> row(m.row.begin(), m.row.end()), col(m.col.begin(), m.col.end()),
    comp(a.compliant.begin(), a.compliant.end()),
    lidx(a.lidx.begin(), a.lidx.end()), lines(a.lines.begin(), a.lines.end()),
    f2c;
  comma::agglomerate_one_level<L, Real, Int>(
    row, col, m.w, m.vol, m.cen, m.prio, comp, m.nbnd, a.build_lines,
    a.is_aniso, a.odd, a.thr, static_cast<comma::CoMMASeedsPoolT>(a.pool), f2c,
    lidx, lines, a.corr, m.dim, a.goal, a.min, a.max,
    static_cast<comma::CoMMAAspectRatioT>(a.ar), a.sing, ml,
    static_cast<comma::CoMMACellCouplingT>(coupling), a.force_dir, a.fc_iter,
    static_cast<comma::CoMMANeighbourhoodT>(a.nbh)
  );
  Out o;
  o.f2c.assign(f2c.begin(), f2c.end());
  o.lidx.assign(lidx.begin(), lidx.end());
  o.lines.assign(lines.begin(), lines.end());
  return o;
}
static void same(Case &c, const char *what, const Out &x, const Out &y) {
  PBT_CHECK(
    c, x.f2c == y.f2c, what << ": map " << show(y.f2c) << " instead of "
                            << show(x.f2c)
  );
  PBT_CHECK(
    c, x.lidx == y.lidx && x.lines == y.lines,
    what << ": lines " << show(y.lidx) << show(y.lines) << " instead of "
         << show(x.lidx) << show(x.lines)
  );
}

static void run(Case &c) {
  const int which = static_cast<int>(c.s.draw(8));
  const bool wants_lines = which >= 2 && which <= 5;
  GenOpts go;
  go.max_n = c.tier ? 120 : 50;
  go.stretched = wants_lines || c.s.chance(1, 3);
  Mesh m = gen_mesh(c.s, go);
  ArgOpts ao;
  ao.aniso = wants_lines ? 2 : 1;
  Args a = gen_args(c.s, m, ao);
  switch (which) {
    case 0: {
      Mesh k = m;
      size_t above = 0;
      for (auto &b : m.nbnd)
        if (b >= m.dim || c.s.chance(1, 5)) b = m.dim;
      k.nbnd = m.nbnd;
      for (auto &b : k.nbnd)
        if (b == m.dim && c.s.coin()) {
          b += 1 + static_cast<int>(c.s.draw(6));
          ++above;
        }
      c.say(describe(k) + describe(a));
      same(c, "boundary counts above the dimension", agglomerate(m, a), agglomerate(k, a));
      c.nontrivial = above > 0;
      c.label("boundary counts");
      break;
    }
    case 1: {
      if (c.s.coin()) a.corr = true;
      a.sing = a.min - 1;
      Args b = a;
      b.sing = a.min + static_cast<int>(c.s.draw(5));
      c.say(describe(m) + describe(b));
      const Out x = agglomerate(m, a);
      same(c, "singular threshold", x, agglomerate(m, b));
      c.nontrivial = a.corr && x.f2c.size() > 1;
      c.label("singular threshold");
      break;
    }
    case 2: {
      a.build_lines = true;
      if (a.thr <= 1) a.thr = static_cast<double>(1 << c.s.draw(5));
      else a.thr = std::exp2(std::round(std::log2(a.thr)));
      Args b = a;
      b.thr = 1. / a.thr;
      c.say(describe(m) + describe(b));
      const Out x = agglomerate(m, a);
      same(c, "inverse threshold", x, agglomerate(m, b));
      c.nontrivial = !x.lines.empty() && a.thr != 1.;
      c.label("inverse threshold");
      break;
    }
    case 3: {
      a.build_lines = true;
      a.max_line.reset();
      const L lim = -static_cast<L>(c.s.draw(5));
      c.say(describe(m) + describe(a) + " limit " + std::to_string(lim));
      const Out x = call_signed(m, a, std::nullopt, a.coupling);
      same(c, "non-positive line limit", x, call_signed(m, a, lim, a.coupling));
      if (lim == 0) {
        Args b = a;
        b.max_line = 0;
        same(c, "zero line limit", x, agglomerate(m, b));
      }
      c.nontrivial = !x.lines.empty();
      c.label("line limit");
      break;
    }
    case 4: {
      a.build_lines = true;
      a.coupling = 0;
      const int bad = static_cast<int>(c.s.pick({2, 3, -1, 50}));
      c.say(describe(m) + describe(a) + " coupling " + std::to_string(bad));
      std::optional<L> ml;
      if (a.max_line) ml = static_cast<L>(*a.max_line);
      const Out x = call_signed(m, a, ml, 0);
      same(c, "unknown coupling", x, call_signed(m, a, ml, bad));
      c.nontrivial = !x.lines.empty();
      c.label("coupling");
      break;
    }
    case 5: {
      a.build_lines = true;
      Args b = a;
      const size_t n0 = b.compliant.size();
      for (size_t i = 0; i < n0; ++i)
        if (c.s.chance(1, 3)) b.compliant.push_back(b.compliant[i]);
      c.s.shuffle(b.compliant);
      c.say(describe(m) + describe(b));
      const Out x = agglomerate(m, a);
      same(c, "compliant cells", x, agglomerate(m, b));
      c.nontrivial = !x.lines.empty() && b.compliant != a.compliant;
      c.label("compliant cells");
      break;
    }
    case 6: {
      // no usable line
      Args b = a;
      a.is_aniso = false;
      b.is_aniso = true;
      bool dirty = c.s.coin();
      const int why = static_cast<int>(c.s.draw(5));
      std::string what;
      bool untouched = false;
      b.lidx.clear();
      b.lines.clear();
      switch (why) {
        case 0:
          b.build_lines = true;
          b.compliant.clear();
          what = "no compliant cell";
          break;
        case 1:
          b.build_lines = true;
          b.compliant.clear();
          for (Idx i = 0; i < m.n(); ++i) b.compliant.push_back(i);
          b.thr = 1e30;
          what = "no anisotropic cell";
          break;
        case 2:
          b.build_lines = true;
          b.compliant = {static_cast<Idx>(c.s.draw(m.n()))};
          what = "one anisotropic cell";
          break;
        case 3:
          b.build_lines = false;
          dirty = false;
          untouched = true;
          if (c.s.coin()) b.lidx = {0};
          else if (c.s.coin()) b.lidx = {0, 3};
          if (b.lidx.size() < 2 && c.s.coin()) b.lines = {0};
          what = "insufficient lines";
          break;
        default: {
          b.build_lines = false;
          dirty = false;
          std::vector<Idx> p(m.n());
          for (Idx i = 0; i < m.n(); ++i) p[i] = i;
          c.s.shuffle(p);
          p.resize(1 + c.s.draw(m.n()));
          b.lines = p;
          for (Idx i = 0; i <= p.size(); ++i) b.lidx.push_back(i);
          what = "one-cell lines";
        }
      }
      if (dirty) {
        b.lidx = {0, 1, 2};
        b.lines = {5, 6};
      }
      c.say(describe(m) + describe(b));
      Args i = a;
      i.lidx = i.lines = {3, 3};
      const Out x = agglomerate(m, i), y = agglomerate(m, b);
      PBT_CHECK(
        c, x.f2c == y.f2c, what << ": map " << show(y.f2c)
                                << " instead of the isotropic "
                                << show(x.f2c)
      );
      PBT_CHECK(
        c, x.lidx == i.lidx && x.lines == i.lines,
        "isotropic call changed the lines to " << show(x.lidx) << show(x.lines)
      );
      if (untouched) {
        PBT_CHECK(
          c, y.lidx == b.lidx && y.lines == b.lines,
          what << ": lines changed to " << show(y.lidx) << show(y.lines)
        );
      } else {
        PBT_CHECK(
          c, y.lines.empty(),
          what << ": lines " << show(y.lidx) << show(y.lines)
        );
      }
      c.nontrivial = m.n() > 1;
      c.label(what);
      break;
    }
    default: {
      // arguments of a disabled stage have no influence
      Args b;
      a.is_aniso = false;
      b = a;
      b.build_lines = c.s.coin();
      b.odd = c.s.coin();
      b.thr = static_cast<double>(c.s.draw(9)) - 2;
      b.coupling = static_cast<int>(c.s.draw(3));
      b.force_dir = c.s.coin();
      if (c.s.coin()) b.max_line = c.s.draw(4);
      else b.max_line.reset();
      b.compliant.clear();
      for (Idx i = 0; i < m.n(); ++i)
        if (c.s.coin()) b.compliant.push_back(i);
      if (!a.corr) b.sing = 1 + static_cast<int>(c.s.draw(9));
      c.say(describe(m) + describe(a) + describe(b));
      same(c, "arguments of a disabled stage", agglomerate(m, a), agglomerate(m, b));
      c.nontrivial = m.n() > 1;
      c.label("disabled stage");
    }
  }
}

const Property pbt::PROPERTY{
  "C21",
  "random call and the call with one argument replaced by a value documented "
  "as equivalent; non-trivial: the replaced argument takes part (e.g. lines "
  "are found, counts above the dimension are present, correction is on)",
  run, 50000, 500000};
