// C25: every valid input is processed without crash, undefined behaviour,
// exception, endless loop or leak
#include "common.h"
#include <climits>
#include <cstddef>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace pbt;

namespace {
// values at the limits of what is accepted
void extremes(Src &s, Mesh &m, Args &a, std::string &what) {
  const size_t n = m.n();
  const int k = 1 + static_cast<int>(s.draw(3));
  for (int t = 0; t < k; ++t) switch (s.draw(14)) {
      case 0:
        a.max = INT_MAX - static_cast<int>(s.draw(2));
        what += " huge max";
        break;
      case 1:
        a.goal = a.max = INT_MAX - static_cast<int>(s.draw(2));
        what += " huge goal";
        break;
      case 2:
        a.min = a.goal = a.max = s.coin()
          ? INT_MAX
          : static_cast<int>(n + s.draw(3)) + 2;
        what += " all cardinalities above the mesh";
        break;
      case 3:
        a.sing = s.coin() ? INT_MAX : static_cast<int>(n) + 1;
        a.corr = true;
        what += " huge singular threshold";
        break;
      case 4:
        for (auto &p : m.prio) p = s.coin() ? -1e300 : 1e300;
        what += " extreme priorities";
        break;
      case 5:
        for (auto &p : m.prio) p = 0.;
        what += " zero priorities";
        break;
      case 6:
        for (auto &b : m.nbnd) b = s.coin() ? INT_MAX : 0;
        what += " huge boundary counts";
        break;
      case 7: {
        const Real f = s.coin() ? 1e-30 : 1e30;
        for (auto &w : m.w) w *= f;
        what += " extreme weights";
        break;
      }
      case 8:
        for (auto &v : m.vol)
          if (s.coin()) v = 1e-30;
        what += " tiny volumes";
        break;
      case 9:
        a.thr = s.pick({1e300, -1e300, 0., 1e-300, 1.});
        what += " extreme threshold";
        break;
      case 10:
        a.max_line = s.pick({Idx{1}, Idx{2}, ~Idx{0}, Idx{INT_MAX}, Idx{n}});
        what += " extreme line length";
        break;
      case 11:
        for (auto &x : m.cen) x = m.cen[0];
        what += " coincident centers";
        break;
      case 12:
        for (size_t i = 0; i < n; ++i) m.nbnd[i] = 0;
        what += " no boundary";
        break;
      default:
        a.is_aniso = true;
        a.build_lines = true;
        a.compliant.clear();
        if (s.coin())
          for (size_t i = 0; i < n; ++i) a.compliant.push_back(n - 1 - i);
        what += " all or no cell compliant";
    }
  a.goal = std::max(a.goal, a.min);
  a.max = std::max(a.max, a.goal);
}

template<typename I, typename R, typename N>
struct Data {
  std::vector<I> row, col;
  std::vector<R> w, vol, prio;
  std::vector<std::vector<R>> cen;
  std::vector<N> nb;
};
template<typename I, typename R, typename N>
Data<I, R, N> convert(const Mesh &m) {
  Data<I, R, N> d;
  d.row.assign(m.row.begin(), m.row.end());
  d.col.assign(m.col.begin(), m.col.end());
  d.w.assign(m.w.begin(), m.w.end());
  d.vol.assign(m.vol.begin(), m.vol.end());
  d.prio.assign(m.prio.begin(), m.prio.end());
  for (auto &x : m.cen) d.cen.emplace_back(x.begin(), x.end());
  d.nb.assign(m.nbnd.begin(), m.nbnd.end());
  return d;
}

// agglomeration, then the helpers on the result
template<typename I, typename R, typename N>
size_t once(
  const Data<I, R, N> &d, int dim, const Args &a, const std::vector<I> &wall,
  const std::unordered_set<N> &allowed
) {
  std::vector<I> f2c;
  std::vector<I> lidx(a.lidx.begin(), a.lidx.end()),
    lines(a.lines.begin(), a.lines.end());
  raw_call<I, R, N>(
    d.row, d.col, d.w, d.vol, d.cen, d.prio, d.nb, dim, a, f2c, lidx, lines
  );
  std::vector<I> r, c2, filt;
  std::vector<R> w, v, p;
  std::vector<std::vector<R>> x;
  std::vector<N> b, dist;
  comma::build_coarse_graph<I, R, N>(
    f2c, d.row, d.col, d.w, d.vol, d.cen, d.prio, d.nb, r, c2, w, v, x, p, b
  );
  comma::compute_neighbourhood_based_wall_distance<I, N>(
    d.row, d.col, wall, dist
  );
  comma::filter_cells_by_n_edges<I, N>(d.row, d.nb, allowed, filt);
  size_t N_ = 0;
  for (auto k : f2c) N_ = std::max(N_, static_cast<size_t>(k) + 1);
  return N_;
}

template<typename I, typename R, typename N>
void body(
  Case &c, const Mesh &m, const Args &a, const std::vector<Idx> &wall0,
  bool leaks
) {
  const auto d = convert<I, R, N>(m);
  const std::vector<I> wall(wall0.begin(), wall0.end());
  const std::unordered_set<N> allowed{-1, 0, 2, 3, 4};
  size_t N_ = once(d, m.dim, a, wall, allowed);
  if (leaks) {
    size_t prev = __sanitizer_get_current_allocated_bytes();
    size_t grown = 0;
    for (int k = 0; k < 3; ++k) {
      once(d, m.dim, a, wall, allowed);
      const size_t cur = __sanitizer_get_current_allocated_bytes();
      grown += cur > prev;
      prev = cur;
    }
    PBT_CHECK(
      c, grown < 3, "memory allocated by the call is not given back"
    );
    c.label("leaks counted");
  }
  c.nontrivial = N_ >= 2 || m.n() <= 2;
}

void run(Case &c) {
  Src &s = c.s;
  GenOpts go;
  go.max_n = c.tier ? 240 : s.chance(1, 10) ? 200 : 60;
  // growing without limit in a complete graph takes cubic time
  go.large = false;
  go.stretched = s.chance(1, 3);
  Mesh m = gen_mesh(s, go);
  Args a = gen_args(s, m);
  std::string what;
  if (s.chance(2, 3)) extremes(s, m, a, what);
  std::vector<Idx> wall;
  for (size_t i = 0; i < m.n(); ++i)
    if (s.chance(1, 8)) wall.push_back(i);
  const int types = static_cast<int>(s.draw(4));
  const bool leaks = s.chance(1, 4);
  c.say(describe(m) + describe(a) + what + " types " + std::to_string(types));
  switch (types) {
  case 1: body<unsigned int, double, long>(c, m, a, wall, leaks); break;
  case 2: body<long, double, int>(c, m, a, wall, leaks); break;
  default: body<Idx, Real, Int>(c, m, a, wall, leaks);
  }
  c.label_if(!what.empty(), "extreme values");
  c.label_if(m.n() <= 2, "one or two cells");
  c.label_if(m.n() > 60, "n>60");
}
}  // namespace

const Property pbt::PROPERTY{
  "C25",
  "random mesh graph x random accepted arguments x up to three values at the "
  "limits of what is accepted x index and integer types, all helpers on the "
  "result; non-trivial: at least two coarse cells, or a mesh of one or two cells",
  run, 40000, 300000};
