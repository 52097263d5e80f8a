// C38: the rules are the same in single and in extended precision
#include "model.h"
using namespace pbt;

namespace {
template<typename R>
Out call(const Mesh &m, const Args &a) {
  auto to = [](const std::vector<Real> &v) {
    return std::vector<R>(v.begin(), v.end());
  };
  std::vector<std::vector<R>> cen;
  for (auto &x : m.cen) cen.push_back(to(x));
  Out o;
  o.lidx = a.lidx;
  o.lines = a.lines;
  raw_call<Idx, R, Int>(
    m.row, m.col, to(m.w), to(m.vol), cen, to(m.prio), m.nbnd, m.dim, a, o.f2c,
    o.lidx, o.lines
  );
  return o;
}

void run(Case &c) {
  Src &s = c.s;
  bool single = !s.coin();
  GenOpts go;
  go.max_n = c.tier ? 100 : 50;
  go.fine = false;  // data exact in single precision
  go.stretched = s.chance(1, 3);
  const Mesh m = gen_mesh(s, go);
  // single precision only with data that are exact there
  auto exact = [](const std::vector<Real> &v) {
    return std::all_of(v.begin(), v.end(), [](Real x) {
      return static_cast<Real>(static_cast<float>(x)) == x;
    });
  };
  single = single && exact(m.w) && exact(m.vol) && exact(m.prio)
    && std::all_of(m.cen.begin(), m.cen.end(), exact);
  ArgOpts ao;
  ao.allow_iter = false;
  Args a = gen_args(s, m, ao);
  // distances from the barycentre are compared with an absolute tolerance
  if (single && a.ar == 8) a.ar = 7;
  c.say((single ? "float " : "long double ") + describe(m) + describe(a));
  const Out o = single ? call<float>(m, a) : call<long double>(m, a);
  c.say(describe(o));
  PBT_CHECK(c, o.f2c.size() == m.n(), "size of the result");
  const size_t N = o.n_cc();
  PBT_CHECK(c, N <= m.n(), "coarse ID " << N - 1 << " of " << m.n() << " cells");
  const auto ccs = cells_of(o);
  const size_t k = n_aniso(a, o);
  PBT_CHECK(c, k <= N, "more cells of lines than coarse cells");
  for (size_t i = 0; i < N; ++i) {
    PBT_CHECK(c, !ccs[i].empty(), "coarse ID " << i << " is skipped");
    PBT_CHECK(c, is_connected(m, ccs[i]), "coarse cell " << i << " not connected");
    PBT_CHECK(
      c, i < k || a.corr || ccs[i].size() <= static_cast<size_t>(a.max),
      "coarse cell " << i << " has " << ccs[i].size() << " cells"
    );
  }
  c.label(single ? "single precision" : "extended precision");
  const Real tol = single ? 3e-5 : 1e-9;
  try {
    IsoModel model(m, a);
    model.tol = tol;
    model.exact = false;
    Paired p;
    if (aniso_active(a)) {
      const auto lines = a.build_lines
        ? build_lines_model(m, a, single ? tol : 1e-12, false)
        : split_lines(a.lidx, a.lines);
      p = pair_lines_model(m, a, lines);
      PBT_CHECK(
        c, k == p.ccs.size(),
        k << " anisotropic coarse cells instead of " << p.ccs.size()
      );
      for (size_t i = 0; i < k; ++i) {
        auto x = p.ccs[i];
        std::sort(x.begin(), x.end());
        PBT_CHECK(
          c, o.lines[i] == i && ccs[i] == x,
          "anisotropic coarse cell " << i << " is " << show(ccs[i])
                                     << " instead of " << show(x)
        );
      }
      c.nontrivial = k >= 2;
    }
    if (a.corr) return;
    if (k > 0)
      model.start_after(p.ccs);
    else if (aniso_active(a) && !p.per_line.empty())
      model.start_after({});
    else
      model.start();
    for (size_t i = k; i < N; ++i) {
      const auto e = model.step({ccs[i].begin(), ccs[i].end()});
      PBT_CHECK(c, e.empty(), "coarse cell " << i << " " << show(ccs[i]) << ": " << e);
    }
    c.nontrivial = c.nontrivial || model.grown >= 2;
    c.label_if(model.ambiguous > 0, "near ties explored");
  } catch (const Abandon &ab) {
    c.label(ab.why);
    c.label("abandoned");
    return;
  }
  std_labels(c, m, a, o);
}
}  // namespace

const Property pbt::PROPERTY{
  "C38",
  "random mesh graph with data exact in single precision x random accepted "
  "arguments x float or long double; non-trivial: two or more coarse cells "
  "grown cell by cell or two or more anisotropic ones, all choices decided by "
  "more than rounding or explored exhaustively",
  run, 60000, 500000};
