// C40: geometric helpers, orders on pairs and small conversions
#include <cmath>
#include <map>

#include "common.h"
using namespace pbt;

namespace {
#ifndef PBT_MINIMAL  // helpers that no test of the library uses
template<typename T>
bool near(T a, T b, T scale) {
  return std::fabs(a - b) <= 64 * std::numeric_limits<T>::epsilon() * scale;
}

template<typename T, unsigned... P>
void powers(Case &c, T x, std::integer_sequence<unsigned, P...>) {
  const std::vector<T> got{comma::int_power<P>(x)...};
  T expect = 1;
  for (size_t p = 0; p < got.size(); ++p, expect *= x)
    PBT_CHECK(
      c, got[p] == expect,
      x << " to the power of " << p << " is " << got[p] << ", not " << expect
    );
}

template<typename T>
void geometry(Case &c) {
  const size_t dim = 1 + c.s.draw(4);
  // sums and differences are exact, and so are products without the offset
  auto coord = [&]() {
    const auto e = static_cast<int>(c.s.draw(7)) - 3;
    return std::ldexp(static_cast<T>(static_cast<int>(c.s.draw(33)) - 16), e);
  };
  std::vector<T> a(dim), b(dim), d(dim, T{77});
  for (auto &x : a) x = coord();
  for (auto &x : b) x = coord();
  // far from the origin: as many digits as the type has
  const bool far = c.s.chance(1, 3);
  if (far)
    for (size_t i = 0; i < dim; ++i) {
      const T o = std::ldexp(
        T{1}, 8 + static_cast<int>(c.s.draw(std::numeric_limits<T>::digits - 12))
      );
      a[i] += o;
      b[i] += o;
    }
  c.label_if(far, "far from the origin");
  c.say("points " + show(a) + show(b));
  T sq = 0, dot = 0, na = 0, nb = 0;
  for (size_t i = 0; i < dim; ++i) {
    sq += (b[i] - a[i]) * (b[i] - a[i]);
    dot += a[i] * b[i];
    na += a[i] * a[i];
    nb += b[i] * b[i];
  }
  using namespace comma;
  PBT_CHECK(
    c, near(dot_product(a, b), dot, far ? na + nb : T{0}),
    "dot product " << dot_product(a, b)
  );
  PBT_CHECK(c, dot_product(b, a) == dot_product(a, b), "dot product depends on the order");
  PBT_CHECK(
    c, squared_euclidean_distance(a, b) == sq,
    "squared distance " << squared_euclidean_distance(a, b) << " not " << sq
  );
  PBT_CHECK(
    c, squared_euclidean_distance(b, a) == sq, "distance depends on the order"
  );
  PBT_CHECK(
    c,
    near(_sq(a[0]), a[0] * a[0], far ? _sq(a[0]) : T{0})
      && near(_cb(a[0]), a[0] * a[0] * a[0], far ? std::fabs(_cb(a[0])) : T{0}),
    "square or cube of " << a[0]
  );
  if (sq > 0) {
    const T norm = get_direction(a, b, d);
    PBT_CHECK(c, near(norm, std::sqrt(sq), norm), "distance " << norm);
    T len = 0;
    for (size_t i = 0; i < dim; ++i) {
      len += d[i] * d[i];
      PBT_CHECK(
        c, near(d[i] * norm, b[i] - a[i], norm),
        "direction " << show(d) << " does not lead from one to the other"
      );
    }
    PBT_CHECK(c, near(len, T{1}, T{1}), "direction of length " << len);
    std::vector<T> back(dim);
    const T again = get_direction(b, a, back);
    PBT_CHECK(c, again == norm, "way back of length " << again);
    for (size_t i = 0; i < dim; ++i)
      PBT_CHECK(c, back[i] == -d[i], "way back is not the opposite");
    // parallel means within 20 degrees, whatever the sense
    if (na > 0 && nb > 0) {
      const T cosine = dot / std::sqrt(na * nb);
      const T limit = std::cos(static_cast<T>(std::acos(-1.L) / 9));
      if (std::fabs(std::fabs(cosine) - limit) > T{1e-6L}) {
        PBT_CHECK(
          c, dot_deviate(cosine) == (std::fabs(cosine) < limit),
          "cosine " << cosine << " misjudged"
        );
        PBT_CHECK(
          c, dot_deviate(-cosine) == dot_deviate(cosine),
          "cosine " << cosine << " judged according to its sign"
        );
        c.label(dot_deviate(cosine) ? "deviating" : "aligned");
      }
    }
  }
  powers(
    c, static_cast<T>(static_cast<int>(c.s.draw(9)) - 4) / 2,
    std::make_integer_sequence<unsigned, 8>{}
  );
  c.nontrivial = dim > 1 && sq > 0 && na > 0 && nb > 0;
}
#else
template<typename T>
void geometry(Case &) {}
#endif

template<typename F, typename S>
void orders(Case &c) {
  using P = std::pair<F, S>;
  const size_t n = c.s.draw(12);
  const size_t firsts = 1 + c.s.draw(8), seconds = 1 + c.s.draw(5);
  const bool negative = c.s.coin();
  std::vector<P> v(n);
  for (auto &p : v) {
    p.first = static_cast<F>(c.s.draw(firsts));
    p.second = static_cast<S>(static_cast<int>(c.s.draw(seconds)) - (negative ? 2 : 0));
    if (c.s.chance(1, 10))
      p.second = negative ? std::numeric_limits<S>::lowest()
                          : std::numeric_limits<S>::max();
  }
  std::string t = "pairs";
  for (const auto &p : v)
    t += " (" + std::to_string(p.first) + " " + std::to_string(p.second) + ")";
  c.say(t);
  const comma::CustomPairLessFunctor<P> less{};
  const comma::CustomPairGreaterFunctor<P> greater{};
#ifndef PBT_MINIMAL
  const comma::PairSecondBasedLessFunctor<P> second{};
#endif
  bool tie = false;
  for (const auto &x : v)
    for (const auto &y : v) {
      const bool higher =
        x.second > y.second || (x.second == y.second && x.first < y.first);
      PBT_CHECK(c, greater(x, y) == higher, "wrong 'greater'");
      PBT_CHECK(c, less(y, x) == higher, "wrong 'less'");
#ifndef PBT_MINIMAL
      PBT_CHECK(c, second(x, y) == (x.second < y.second), "wrong 'second less'");
#endif
      tie |= x.second == y.second && x.first != y.first;
    }
  // in the containers they are meant for
  std::set<P, comma::CustomPairGreaterFunctor<P>> s(v.begin(), v.end());
  std::set<P> plain(v.begin(), v.end());
  PBT_CHECK(c, s.size() == plain.size(), "pairs lost or doubled");
#ifndef PBT_MINIMAL
  const auto fe = comma::vector_of_first_elements(s);
  std::vector<P> sorted(plain.begin(), plain.end());
  std::stable_sort(sorted.begin(), sorted.end(), [](const P &x, const P &y) {
    return x.second > y.second;
  });
  PBT_CHECK(c, fe.size() == sorted.size(), "first elements lost");
  for (size_t i = 0; i < fe.size(); ++i)
    PBT_CHECK(c, fe[i] == sorted[i].first, "first elements out of order");
  const auto direct = comma::vector_of_first_elements(v);
  PBT_CHECK(c, direct.size() == v.size(), "first elements lost");
  for (size_t i = 0; i < v.size(); ++i)
    PBT_CHECK(c, direct[i] == v[i].first, "first elements out of order");
  const F wanted = static_cast<F>(c.s.draw(firsts + 1));
  const auto it = std::find_if(
    v.begin(), v.end(), comma::PairFindFirstBasedFunctor<P>(wanted)
  );
  const auto ref = std::find_if(v.begin(), v.end(), [wanted](const P &p) {
    return p.first == wanted;
  });
  PBT_CHECK(c, it == ref, "pair of " << wanted << " not found where it is");
#endif
  std::unordered_map<F, S> m(v.begin(), v.end());
  const auto keys = comma::d_keys_to_set<F, S>(m);
  PBT_CHECK(c, keys.size() == m.size(), "keys lost or invented");
  for (const auto &p : m) PBT_CHECK(c, keys.count(p.first) == 1, "key lost");
  c.label_if(tie, "equal second elements");
  c.nontrivial = n > 2 && tie;
}

void run(Case &c) {
  switch (c.s.draw(6)) {
    case 0: return geometry<double>(c);
    case 1: return geometry<float>(c);
    case 2: return geometry<long double>(c);
    case 3: return orders<Idx, Real>(c);
    case 4: return orders<Idx, Int>(c);
    default: return orders<int, float>(c);
  }
}
}  // namespace

const Property pbt::PROPERTY{
  "C40",
  "random points in one to four dimensions and three precisions, or random "
  "pairs with repeated elements of three types; non-trivial: distinct points "
  "other than the origin in several dimensions, or more than two pairs with "
  "equal second elements",
  run, 300000, 3000000};
