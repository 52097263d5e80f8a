// C11: incremental aspect ratio and features = definition
#include "model.h"
using namespace pbt;

using G = comma::Dual_Graph<Idx, Real, Int>;
using AR = comma::ARComputer<Idx, Real, Int>;
using CF = comma::CellFeatures<Idx, Real, Int>;

template<unsigned D>
static std::unique_ptr<AR> make(int type, std::shared_ptr<G> g) {
  using namespace comma;
  switch (type) {
    case 0: return std::make_unique<ARDiamOverRadius<Idx, Real, Int, D>>(g);
    case 1: return std::make_unique<ARDiamOverMinEdge<Idx, Real, Int>>(g);
    case 2: return std::make_unique<ARDiameter<Idx, Real, Int>>(g);
    case 3: return std::make_unique<AROverMeasure<Idx, Real, Int>>(g);
    case 4: return std::make_unique<AROverInternalWeights<Idx, Real, Int>>(g);
    case 5:
      return std::make_unique<ARExternalWeightOverRadius<Idx, Real, Int, D>>(g);
    case 6: return std::make_unique<ARExternalWeights<Idx, Real, Int>>(g);
    case 7:
      return std::make_unique<ARMaxBaryDistanceOverRadius<Idx, Real, Int, D>>(g
      );
    case 8:
      return std::make_unique<ARMaxOverMinBaryDistance<Idx, Real, Int>>(
        g, 1e-12
      );
    default:
      return std::make_unique<ARExternalWeightOverRadius<Idx, Real, Int, 1>>(g);
  }
}

static bool close(Real a, Real b, Real tol = 1e-9, Real floor = 1e-300) {
  return std::fabs(a - b)
    <= tol * std::max({std::fabs(a), std::fabs(b), floor});
}

static std::shared_ptr<G> graph_of(const Mesh &m, const std::vector<Int> &nb) {
  return std::make_shared<G>(
    m.n(), m.row, m.col, m.w, m.vol, m.cen, nb, m.dim, std::vector<Idx>{}
  );
}

const auto anew = [](auto &x) -> decltype(x = std::decay_t<decltype(x)>(
                                   x._measure, x._external_weights,
                                   x._internal_weights, x._n_internal_faces,
                                   Real(), Real(), x._sum_centers,
                                   x._external_facets
                                 )) {
  return x = std::decay_t<decltype(x)>(
           x._measure, x._external_weights, x._internal_weights,
           x._n_internal_faces, std::sqrt(x._sq_min_edge),
           std::sqrt(x._sq_diam), x._sum_centers, x._external_facets
         );
};

static void run(Case &c) {
  Src &s = c.s;
  GenOpts go;
  go.max_n = 30;
  Mesh m = gen_mesh(s, go);
  // the class gets the boundary counts as they are
  std::vector<Int> nb(m.n());
  for (size_t i = 0; i < m.n(); ++i) nb[i] = m.nbnd[i] = m.nb(i);
  const int type = s.draw(10);
  auto g = graph_of(m, nb);
  auto ar = m.dim == 2 ? make<2>(type, g) : make<3>(type, g);
  // translated copy: the result must not depend on the position
  Mesh mt(m);
  const bool translate = s.coin();
  if (translate) {
    std::vector<Real> t(m.cen[0].size());
    for (auto &x : t) x = (static_cast<Real>(s.draw(65)) - 32) / 2;
    for (auto &x : mt.cen)
      for (size_t k = 0; k < t.size(); ++k) x[k] += t[k];
  }
  auto gt = graph_of(mt, nb);
  auto art = m.dim == 2 ? make<2>(type, gt) : make<3>(type, gt);
  const Idx seed = s.draw(m.n());
  const size_t size = 2 + s.draw(8);
  c.say(describe(m) + " AR=" + std::to_string(type) + " seed=" + std::to_string(seed));
  CF f(seed, g), ft(seed, gt);
  std::unordered_set<Idx> cc{seed};
  std::set<Idx> ref{seed};
  size_t steps = 0;
  bool unequal = false, rebuilt = false;
  while (cc.size() < size) {
    std::vector<Idx> fr;
    for (auto x : ref)
      for (Idx e = m.row[x]; e < m.row[x + 1]; ++e)
        if (!ref.count(m.col[e])) fr.push_back(m.col[e]);
    if (fr.empty()) break;
    const Idx nx = fr[s.draw(fr.size())];
    c.say(" +" + std::to_string(nx));
    Int shared = 0, shared_t = 0;
    // outputs hold something else beforehand
    Real a = s.coin() ? -5. : 0., at = 0.;
    CF out{}, outt{};
    ar->compute_and_update_features(nx, f, cc, shared, a, out);
    art->compute_and_update_features(nx, ft, cc, shared_t, at, outt);
    int sh = 0;
    for (auto x : ref) sh += m.adjacent(x, nx);
    ref.insert(nx);
    const Feat d = features(m, ref);
    PBT_CHECK(c, shared == sh, "shared faces " << shared << " instead of " << sh);
    PBT_CHECK(
      c, close(out._measure, d.V),
      "measure " << out._measure << " instead of " << d.V
    );
    PBT_CHECK(
      c, out._n_internal_faces == d.int_faces,
      "internal faces " << out._n_internal_faces << " instead of " << d.int_faces
    );
    if (type <= 2) {
      PBT_CHECK(
        c, close(out._sq_diam, d.sqd),
        "squared diameter " << out._sq_diam << " instead of " << d.sqd
      );
      PBT_CHECK(
        c, close(out._sq_min_edge, d.sqmin),
        "squared minimum edge " << out._sq_min_edge << " instead of " << d.sqmin
      );
    }
    if (type == 5 || type == 6 || type == 9)
      PBT_CHECK(
        c, std::fabs(out._external_weights - d.ext) <= 1e-9 * (1 + std::fabs(d.ext)),
        "external weights " << out._external_weights << " instead of " << d.ext
      );
    if (type >= 4 && type != 7 && type != 8)
      PBT_CHECK(
        c, close(out._internal_weights, d.intw),
        "internal weights " << out._internal_weights << " instead of " << d.intw
      );
    if (type == 7 || type == 8)
      for (size_t k = 0; k < d.sumc.size(); ++k)
        PBT_CHECK(
          c, std::fabs(out._sum_centers[k] - d.sumc[k]) <= 1e-9 * (1 + std::fabs(d.sumc[k])),
          "sum of centres " << out._sum_centers[k] << " instead of " << d.sumc[k]
        );
    if (type == 8)
      for (auto &kv : d.facets)
        PBT_CHECK(
          c, out._external_facets.at(kv.first) == kv.second,
          "external facets of " << kv.first << ": "
                                << out._external_facets.at(kv.first)
                                << " instead of " << kv.second
        );
    const Real want = aspect_ratio(d, type, m.dim);
    // differences of large numbers: absolute floor for the perimeter,
    // position of the mesh for the barycentre
    const Real tol = type == 8 || type == 7 ? 1e-6 : 1e-9;
    const Real floor = type == 5 || type == 6 || type == 9
      ? 1e-2
      : (type == 7 ? 1e-6 : (type == 8 ? 1. : 1e-300));
    if (!(type == 8 && d.tol_close)) {
      PBT_CHECK(
        c, close(a, want, tol, floor), "aspect ratio " << a << " instead of " << want
      );
      PBT_CHECK(
        c, close(at, want, tol, floor),
        "aspect ratio " << at << " after a translation instead of " << want
      );
    }
    PBT_CHECK(c, shared_t == sh, "shared faces after a translation");
    unequal = unequal || m.vol[nx] != m.vol[seed];
    f = out;
    ft = outt;
    // the same features, given one by one
    if (s.chance(1, 4)) rebuilt = if_there(f, anew, 0) || rebuilt;
    cc.insert(nx);
    ++steps;
  }
  c.nontrivial = steps >= 2;
  c.label_if(unequal, "different volumes");
  c.label_if(translate, "translated");
  c.label_if(rebuilt, "features given one by one");
  static const char *ars[] = {"AR0", "AR1", "AR2", "AR3", "AR4",
                              "AR5", "AR6", "AR7", "AR8", "AR9"};
  c.label(ars[type]);
}

const Property pbt::PROPERTY{
  "C11",
  "random mesh graph x aspect-ratio type x random connected growth of up to "
  "nine cells, also with the mesh translated; non-trivial: two or more cells "
  "added",
  run, 120000, 1000000};
