// C23: both C++ entry points and all integer types give the same result
#include "common.h"
using namespace pbt;

namespace {

struct R {
  bool thrown = false;
  std::string what;
  Out o;
};
bool operator==(const R &x, const R &y) {
  return x.thrown == y.thrown && x.what == y.what && x.o.f2c == y.o.f2c
    && x.o.lidx == y.o.lidx && x.o.lines == y.o.lines;
}
std::string text(const R &r) {
  return r.thrown ? "error " + r.what
                  : show(r.o.f2c) + show(r.o.lidx) + show(r.o.lines);
}

template<typename T, typename S>
std::vector<T> cast(const std::vector<S> &v) {
  return std::vector<T>(v.begin(), v.end());
}
template<typename F>
R guarded(const Args &a, const F &f) {
  R r;
  r.o.lidx = a.lidx;
  r.o.lines = a.lines;
  try {
    f(r.o);
  } catch (const std::invalid_argument &e) {
    r.thrown = true;
    r.what = e.what();
  }
  return r;
}

template<typename I, typename N>
R typed(const Mesh &m, const Args &a) {
  return guarded(a, [&](Out &o) {
    auto f = cast<I>(o.f2c), li = cast<I>(o.lidx), l = cast<I>(o.lines);
    auto back = [&] {
      o.f2c = cast<Idx>(f);
      o.lidx = cast<Idx>(li);
      o.lines = cast<Idx>(l);
    };
    try {
      raw_call<I, Real, N>(
        cast<I>(m.row), cast<I>(m.col), m.w, m.vol, m.cen, m.prio,
        cast<N>(m.nbnd), m.dim, a, f, li, l
      );
    } catch (...) {
      back();
      throw;
    }
    back();
  });
}

template<typename I, typename N>
R grouped(const Mesh &m, const Args &a, int defaults) {
  return guarded(a, [&](Out &o) {
    const auto row = cast<I>(m.row), col = cast<I>(m.col),
               comp = cast<I>(a.compliant);
    const auto nb = cast<N>(m.nbnd);
    auto f = cast<I>(o.f2c), li = cast<I>(o.lidx), l = cast<I>(o.lines);
    using AG = comma::AgglomerationArgs<I, Real, N>;
    using AN = comma::AnisotropicArgs<I, Real, N>;
    const comma::GraphArgs<I, Real, N> g(
      row, col, m.w, m.vol, m.cen, m.prio, nb, static_cast<N>(m.dim)
    );
    const auto pool = static_cast<comma::CoMMASeedsPoolT>(a.pool);
    const auto ar = static_cast<comma::CoMMAAspectRatioT>(a.ar);
    const auto nbh = static_cast<comma::CoMMANeighbourhoodT>(a.nbh);
    const auto coup = static_cast<comma::CoMMACellCouplingT>(a.coupling);
    const N go = static_cast<N>(a.goal), mi = static_cast<N>(a.min),
            ma = static_cast<N>(a.max), si = static_cast<N>(a.sing),
            it = static_cast<N>(a.fc_iter);
    std::optional<I> ml;
    if (a.max_line) ml = static_cast<I>(*a.max_line);
    // the last arguments are left to their defaults
    const AG ag = (defaults & 7) >= 4 ? AG(go, mi, ma, a.corr, pool)
      : (defaults & 7) == 3           ? AG(go, mi, ma, a.corr, pool, ar)
      : (defaults & 7) == 2           ? AG(go, mi, ma, a.corr, pool, ar, si)
      : (defaults & 7) == 1           ? AG(go, mi, ma, a.corr, pool, ar, si, it)
                            : AG(go, mi, ma, a.corr, pool, ar, si, it, nbh);
    const int d = defaults >> 3;
    const AN an = d == 6 ? AN(a.is_aniso, comp)
      : d == 5           ? AN(a.is_aniso, comp, a.build_lines)
      : d == 4           ? AN(a.is_aniso, comp, a.build_lines, a.odd)
      : d == 3           ? AN(a.is_aniso, comp, a.build_lines, a.odd, a.thr)
      : d == 2 ? AN(a.is_aniso, comp, a.build_lines, a.odd, a.thr, ml)
      : d == 1 ? AN(a.is_aniso, comp, a.build_lines, a.odd, a.thr, ml, coup)
               : AN(a.is_aniso, comp, a.build_lines, a.odd, a.thr, ml, coup,
                    a.force_dir);
    auto back = [&] {
      o.f2c = cast<Idx>(f);
      o.lidx = cast<Idx>(li);
      o.lines = cast<Idx>(l);
    };
    try {
      comma::agglomerate_one_level<I, Real, N>(g, ag, an, f, li, l);
    } catch (...) {
      back();
      throw;
    }
    back();
  });
}
// the same call with arguments left out
R single_defaults(const Mesh &m, const Args &a, int n) {
  return guarded(a, [&](Out &o) {
    const auto pool = static_cast<comma::CoMMASeedsPoolT>(a.pool);
    const auto ar = static_cast<comma::CoMMAAspectRatioT>(a.ar);
    const auto coup = static_cast<comma::CoMMACellCouplingT>(a.coupling);
    std::optional<Idx> ml;
    if (a.max_line) ml = static_cast<Idx>(*a.max_line);
#define BASE                                                                   \
  m.row, m.col, m.w, m.vol, m.cen, m.prio, a.compliant, m.nbnd, a.build_lines, \
    a.is_aniso, a.odd, a.thr, pool, o.f2c, o.lidx, o.lines, a.corr, m.dim,     \
    a.goal, a.min, a.max
    switch (n) {
      case 0:
      case 1:
        comma::agglomerate_one_level<Idx, Real, Int>(
          BASE, ar, a.sing, ml, coup, a.force_dir, a.fc_iter
        );
        break;
      case 2:
        comma::agglomerate_one_level<Idx, Real, Int>(
          BASE, ar, a.sing, ml, coup, a.force_dir
        );
        break;
      case 3:
        comma::agglomerate_one_level<Idx, Real, Int>(
          BASE, ar, a.sing, ml, coup
        );
        break;
      case 4:
        comma::agglomerate_one_level<Idx, Real, Int>(BASE, ar, a.sing, ml);
        break;
      case 5:
        comma::agglomerate_one_level<Idx, Real, Int>(BASE, ar, a.sing);
        break;
      case 6: comma::agglomerate_one_level<Idx, Real, Int>(BASE, ar); break;
      default: comma::agglomerate_one_level<Idx, Real, Int>(BASE);
    }
#undef BASE
  });
}

void run(Case &c) {
  GenOpts go;
  go.max_n = c.tier ? 100 : 40;
  go.stretched = c.s.chance(1, 2);
  const Mesh m = gen_mesh(c.s, go);
  ArgOpts ao;
  Args a = gen_args(c.s, m, ao);
  // defaults left out
  const int dg = c.s.coin() ? 0 : static_cast<int>(c.s.draw(5));
  const int da = c.s.coin() ? 0 : static_cast<int>(c.s.draw(7));
  const int ds = c.s.coin() ? 0 : static_cast<int>(c.s.draw(8));
  const int way = static_cast<int>(c.s.draw(6));
  Args full = a;  // what the call with defaults amounts to
  if (way <= 1) {
    if (dg >= 1) full.nbh = comma::CoMMANeighbourhoodT::EXTENDED;
    if (dg >= 2) full.fc_iter = 1;
    if (dg >= 3) full.sing = 1;
    if (dg >= 4) full.ar = comma::CoMMAAspectRatioT::DIAMETER_OVER_RADIUS;
    if (da >= 1) full.force_dir = true;
    if (da >= 2) full.coupling = comma::CoMMACellCouplingT::MAX_WEIGHT;
    if (da >= 3) full.max_line.reset();
    if (da >= 4) full.thr = 4.;
    if (da >= 5) full.odd = true;
    if (da >= 6) full.build_lines = true;
  } else if (way == 2) {
    full.nbh = comma::CoMMANeighbourhoodT::EXTENDED;
    if (ds >= 2) full.fc_iter = 1;
    if (ds >= 3) full.force_dir = true;
    if (ds >= 4) full.coupling = comma::CoMMACellCouplingT::MAX_WEIGHT;
    if (ds >= 5) full.max_line.reset();
    if (ds >= 6) full.sing = 1;
    if (ds >= 7) full.ar = comma::CoMMAAspectRatioT::DIAMETER_OVER_RADIUS;
  }
  // sometimes invalid
  if (c.s.chance(1, 8)) {
    switch (c.s.draw(4)) {
      case 0: a.goal = full.goal = a.max + 1; break;
      case 1: a.min = full.min = 1; break;
      case 2: a.pool = full.pool = 5; break;
      default: a.goal = full.goal = a.min - 1;
    }
  }
  c.say(describe(m) + describe(full) + " way " + std::to_string(way));
  const R x = typed<Idx, Int>(m, full);
  R y;
  std::string what;
  switch (way) {
    case 0:
      y = grouped<Idx, Int>(m, a, dg + 8 * da);
      what = "grouped arguments";
      break;
    case 1:
      y = grouped<int, long>(m, a, dg + 8 * da);
      what = "grouped arguments, int/long";
      break;
    case 2:
      y = single_defaults(m, a, ds);
      what = "default arguments";
      break;
    case 3:
      y = typed<int, int>(m, full);
      what = "int/int";
      break;
    case 4:
      y = typed<unsigned, long>(m, full);
      what = "unsigned/long";
      break;
    default:
      y = typed<long long, long>(m, full);
      what = "long long/long";
  }
  PBT_CHECK(
    c, x == y, what << " (defaults " << dg << "," << da << "," << ds
                    << "): " << text(y) << " instead of " << text(x)
  );
  c.nontrivial = x.thrown || cells_of(x.o).size() > 1;
  c.label(what);
  c.label_if(x.thrown, "rejected");
  c.label_if(way <= 2 && (dg || da || ds), "defaults used");
  c.label_if(!x.thrown && n_aniso(full, x.o) > 0, "anisotropic CCs");
}

}  // namespace

const Property pbt::PROPERTY{
  "C23",
  "random call made through both entry points, with trailing arguments left "
  "out, or with other integer types; non-trivial: rejected, or more than one "
  "coarse cell",
  run, 25000, 300000};
