// Independent reference models of the documented algorithms: seeds pool,
// growth of isotropic coarse cells, anisotropic lines and their pairing,
// correction.  Plain and slow on purpose; no library code is used.
#pragma once
#include <cstdlib>
#include <deque>
#include <functional>
#include <limits>

#include "common.h"

namespace pbt {

// Thrown when a choice is decided by quantities closer than rounding (or when
// there are too many of those): such a case is not judged.
struct Abandon {
  const char *why;
};

// ------------------------------------------------------------- seeds pool
struct PoolModel {
  const std::vector<int> &nb;
  const std::vector<Real> &w;
  bool one, neigh;
  std::deque<Idx> q[4];
  int top = -1;  // -1: not set
  PoolModel(
    const std::vector<int> &nb_, const std::vector<Real> &w_, bool one_,
    bool neigh_
  ) : nb(nb_), w(w_), one(one_), neigh(neigh_) {}

  void sort(std::vector<Idx> &v) const {
    std::sort(v.begin(), v.end(), [&](Idx a, Idx b) {
      return w[a] != w[b] ? w[a] > w[b] : a < b;
    });
  }
  void initialize() {
    if (top < 0) top = *std::max_element(nb.begin(), nb.end());
    std::vector<Idx> v;
    for (Idx i = 0; i < nb.size(); ++i)
      if (nb[i] >= top) v.push_back(i);
    sort(v);
    if (one && v.size() > 1) v.resize(1);
    for (auto i : v) q[top].push_back(i);
  }
  bool empty() const {
    return q[0].empty() && q[1].empty() && q[2].empty() && q[3].empty();
  }
  int highest(const std::vector<bool> &agg) const {
    int h = -1;
    for (Idx i = 0; i < nb.size(); ++i)
      if (!agg[i]) h = std::max(h, nb[i]);
    return h;
  }
  bool need_init(const std::vector<bool> &agg) {
    if (empty() || top < 0) return true;
    if (neigh) return false;
    const int h = highest(agg);
    if (h > top) {
      top = h;
      return true;
    }
    return false;
  }
  std::optional<Idx> take(const std::vector<bool> &agg, int l) {
    while (!q[l].empty()) {
      const Idx i = q[l].front();
      q[l].pop_front();
      if (!agg[i]) return i;
    }
    return std::nullopt;
  }
  std::optional<Idx> choose(const std::vector<bool> &agg) {
    if (top < 0) return std::nullopt;
    if (neigh) {
      for (int l = top; l >= 0; --l)
        if (auto r = take(agg, l)) {
          top = l;
          return r;
        }
    } else if (auto r = take(agg, top)) {
      return r;
    }
    const int h = highest(agg);
    if (h < 0) {
      top = -1;
      return std::nullopt;
    }
    top = h;
    if (auto r = take(agg, h)) return r;
    std::vector<Idx> v;
    for (Idx i = 0; i < nb.size(); ++i)
      if (!agg[i] && nb[i] == h) v.push_back(i);
    sort(v);
    for (auto i : v) q[h].push_back(i);
    const Idx r = q[h].front();
    q[h].pop_front();
    return r;
  }
  void push(Idx i) {
    q[neigh && top >= 0 ? std::min(nb[i], top) : nb[i]].push_back(i);
  }
  void raise(int m) {
    if (!neigh && m > top) top = m;
  }
  void update(const std::vector<Idx> &v) {
    int m = -1;
    for (auto i : v) {
      push(i);
      m = std::max(m, nb[i]);
    }
    raise(m);
  }
  void ordered_update(std::vector<Idx> v) {
    std::sort(v.begin(), v.end(), [&](Idx a, Idx b) {
      if (nb[a] != nb[b]) return nb[a] > nb[b];
      return w[a] != w[b] ? w[a] > w[b] : a < b;
    });
    update(v);
  }
};

// ---------------------------------------------------- growth candidates
struct FrontModel {
  // allowed: cells that may be taken (the neighbourhood of the seed)
  int type;  // 0 extended, 1 pure front
  int dim;
  std::set<Idx> allowed;
  const std::vector<Real> *w;
  std::set<Idx> cc;
  std::vector<Idx> cand;
  std::deque<std::set<Idx>> hist;  // newest first
  void sorted(std::vector<Idx> &v) const {
    std::sort(v.begin(), v.end(), [&](Idx a, Idx b) {
      return (*w)[a] != (*w)[b] ? (*w)[a] > (*w)[b] : a < b;
    });
  }
  void add(const Mesh &m, Idx c) {
    std::vector<Idx> nb(m.col.begin() + m.row[c], m.col.begin() + m.row[c + 1]);
    add(c, nb);
  }
  void add(Idx c, const std::vector<Idx> &neighs) {
    cc.insert(c);
    std::vector<Idx> fresh;
    if (type == 0) {
      cand.erase(std::remove(cand.begin(), cand.end(), c), cand.end());
      for (auto x : neighs)
        if (allowed.count(x) && !cc.count(x)
            && std::find(cand.begin(), cand.end(), x) == cand.end()
            && std::find(fresh.begin(), fresh.end(), x) == fresh.end())
          fresh.push_back(x);
      sorted(fresh);
      cand.insert(cand.end(), fresh.begin(), fresh.end());
      return;
    }
    for (auto &h : hist) h.erase(c);
    std::set<Idx> s;
    for (auto x : neighs)
      if (allowed.count(x) && !cc.count(x)) s.insert(x);
    hist.push_front(s);
    std::set<Idx> pickd;
    if (hist.size() <= static_cast<size_t>(dim)) {
      for (auto &h : hist) pickd.insert(h.begin(), h.end());
    } else {
      // newest, oldest, second newest, second oldest...
      long f = 0, b = static_cast<long>(hist.size()) - 1;
      while (f <= b) {
        if (!hist[f].empty()) {
          pickd = hist[f];
          break;
        }
        if (!hist[b].empty()) {
          pickd = hist[b];
          break;
        }
        ++f;
        --b;
      }
    }
    cand.assign(pickd.begin(), pickd.end());
    sorted(cand);
  }
};

// --------------------------------------------------------- aspect ratio
struct Feat {
  size_t n = 0;
  Real V = 0, ext = 0, intw = 0, sqd = 0, sqmin = 0;
  long int_faces = 0;
  std::vector<Real> sumc;
  std::map<Idx, int> facets;
  Real maxb = 0, max_bd = 0, min_bd = 0;
  bool est_inexact = false, tol_close = false;
};

inline bool pow2(size_t x) { return x && !(x & (x - 1)); }

inline Real total_weight(const Mesh &m, Idx c, bool *inexact = nullptr) {
  Real t = 0;
  for (Idx e = m.row[c]; e < m.row[c + 1]; ++e) t += m.w[e];
  if (m.nb(c) > 0 && m.deg(c) > 0) {
    if (inexact && !pow2(m.deg(c))) *inexact = true;
    return t + m.nb(c) * t / static_cast<Real>(m.deg(c));
  }
  return t;
}

inline Real sqdist(const std::vector<Real> &a, const std::vector<Real> &b) {
  Real q = 0;
  for (size_t k = 0; k < a.size(); ++k) q += (a[k] - b[k]) * (a[k] - b[k]);
  return q;
}

// features of a set of cells, from their definitions
inline Feat features(const Mesh &m, const std::set<Idx> &cc) {
  Feat f;
  f.n = cc.size();
  f.sumc.assign(m.cen[0].size(), 0.);
  Real two_int = 0;
  long two_f = 0;
  Real tot = 0;
  bool first = true;
  for (auto c : cc) {
    f.V += m.vol[c];
    for (size_t k = 0; k < f.sumc.size(); ++k) f.sumc[k] += m.vol[c] * m.cen[c][k];
    tot += total_weight(m, c, &f.est_inexact);
    int in = 0;
    for (Idx e = m.row[c]; e < m.row[c + 1]; ++e)
      if (cc.count(m.col[e])) {
        two_int += m.w[e];
        ++two_f;
        ++in;
      }
    f.facets[c] = static_cast<int>(m.deg(c)) + m.nb(c) - in;
    for (auto d : cc)
      if (c < d) {
        const Real q = sqdist(m.cen[c], m.cen[d]);
        f.sqd = first ? q : std::max(f.sqd, q);
        f.sqmin = first ? q : std::min(f.sqmin, q);
        first = false;
      }
  }
  f.intw = two_int / 2;
  f.int_faces = two_f / 2;
  f.ext = tot - two_int;
  std::vector<Real> b(f.sumc);
  for (auto &x : b) x /= f.V;
  bool any = false;
  for (auto c : cc) {
    const Real q = sqdist(b, m.cen[c]);
    f.maxb = std::max(f.maxb, q);
    const Real d = std::sqrt(q);
    if (f.facets[c] > 0) {
      if (d > 1e-14 && d < 1e-10) f.tol_close = true;
      if (d > 1e-12) {
        f.max_bd = any ? std::max(f.max_bd, d) : d;
        f.min_bd = any ? std::min(f.min_bd, d) : d;
        any = true;
      }
    }
  }
  return f;
}

inline Real over_radius(Real sqx, Real V, int dim) {
  return dim == 2 ? sqx / V : sqx * sqx * sqx / (V * V);
}

inline Real aspect_ratio(const Feat &f, int type, int dim) {
  switch (type) {
    case 0: return over_radius(f.sqd, f.V, dim);
    case 1: return f.n == 2 ? f.sqd : f.sqd / f.sqmin;
    case 2: return f.sqd;
    case 3: return 1. / f.V;
    case 4: return 1. / f.intw;
    case 5: return dim == 2 ? f.ext * f.ext / f.V
                            : f.ext * f.ext * f.ext / (f.V * f.V);
    case 6: return f.ext;
    case 7: return over_radius(f.maxb, f.V, dim);
    case 8: return f.min_bd > 0 ? f.max_bd / f.min_bd : 0.;
    default: return f.ext / f.V;
  }
}
// the quantities the aspect ratio is a function of
inline std::vector<Real> ar_inputs(const Feat &f, int type) {
  switch (type) {
    case 0: return {f.sqd, f.V};
    case 1: return {f.sqd, f.n == 2 ? 0. : f.sqmin};
    case 2: return {f.sqd};
    case 3: return {f.V};
    case 4: return {f.intw};
    case 5:
    case 9: return {f.ext, f.V};
    case 6: return {f.ext};
    default: return {};
  }
}
inline bool ar_exact(const Feat &f, int type) {
  if (type == 7 || type == 8) return false;
  if (type == 5 || type == 6 || type == 9) return !f.est_inexact;
  return true;
}

inline int compactness(const Mesh &m, const std::set<Idx> &cc) {
  int r = std::numeric_limits<int>::max();
  for (auto c : cc) {
    int k = 0;
    for (Idx e = m.row[c]; e < m.row[c + 1]; ++e) k += cc.count(m.col[e]) != 0;
    r = std::min(r, k);
  }
  return cc.size() <= 1 ? 0 : r;
}

// cells reachable from the seeds through free cells, with step distance
inline std::map<Idx, int> neighbourhood(
  const Mesh &m, const std::set<Idx> &seeds, const std::vector<bool> &agg,
  int order, int max_card
) {
  std::map<Idx, int> d;
  for (auto s : seeds) d[s] = 0;
  std::set<Idx> front(seeds);
  int o = 1;
  while (o <= order || static_cast<int>(d.size()) < max_card) {
    std::set<Idx> next;
    for (auto c : front)
      for (Idx e = m.row[c]; e < m.row[c + 1]; ++e)
        if (!agg[m.col[e]] && !d.count(m.col[e])) next.insert(m.col[e]);
    if (next.empty()) break;
    for (auto c : next) d[c] = o;
    front = next;
    ++o;
  }
  for (auto s : seeds) d.erase(s);
  return d;
}

// ------------------------------------------------------ isotropic growth
// Replays the isotropic stage on the coarse cells actually obtained.
class IsoModel {
public:
  const Mesh &m;
  const Args &a;
  std::vector<int> nb;
  PoolModel pool;
  std::vector<bool> agg;
  size_t ambiguous = 0, rejected_back = 0, taken_all = 0, ties = 0, grown = 0;
  size_t foreseen = 0, child_ar = 0;
  Real tol = 1e-9;  // relative difference that rounding may hide
  bool exact = true;  // sums and products of the data are exact
  IsoModel(const Mesh &mesh, const Args &args) :
    m(mesh), a(args), nb(capped(mesh)),
    pool(nb, m.prio, args.pool >= 10, args.pool % 10 == 1),
    agg(mesh.n(), false) {}

  static std::vector<int> capped(const Mesh &mesh) {
    std::vector<int> r(mesh.n());
    for (size_t i = 0; i < mesh.n(); ++i) r[i] = mesh.nb(i);
    return r;
  }
  void start() { pool.initialize(); }
  // after the anisotropic stage: pairs (triples) in order of creation
  void start_after(const std::vector<std::vector<Idx>> &ccs) {
    std::vector<Idx> neighs;
    for (auto &cc : ccs)
      for (auto c : cc) agg[c] = true;
    for (auto &cc : ccs)
      for (auto c : cc)
        for (Idx e = m.row[c]; e < m.row[c + 1]; ++e)
          if (!agg[m.col[e]]) neighs.push_back(m.col[e]);
    if (!neighs.empty()) {
      pool.top = nb[neighs.front()];
      pool.update(neighs);
    }
    if (pool.need_init(agg)) pool.initialize();
  }
  // Checks one coarse cell; returns an explanation if it cannot be the result
  std::string step(const std::set<Idx> &actual) {
    const auto seed_o = pool.choose(agg);
    if (!seed_o) return "the model has no seed left";
    const Idx seed = *seed_o;
    if (!actual.count(seed))
      return "the prescribed seed " + std::to_string(seed)
        + " is not in the coarse cell";
    const int order = std::max(m.dim, a.max / m.dim);
    const auto d = neighbourhood(m, {seed}, agg, order, a.max);
    if (d.empty() || static_cast<int>(d.size()) + 1 < a.goal) {
      std::set<Idx> exp{seed};
      for (auto &kv : d) exp.insert(kv.first);
      if (exp != actual)
        return "seed " + std::to_string(seed)
          + ": too few free cells, all of them expected: " + show_set(exp);
      for (auto c : actual) agg[c] = true;
      ++taken_all;
      return "";
    }
    ++grown;
    _d = &d;
    _actual = &actual;
    _seed = seed;
    _max_ind = std::min<int>(a.max, d.size() + 1);
    _nodes = _looks = 0;
    _first_leaf.clear();
    FrontModel f;
    f.type = a.nbh;
    f.dim = m.dim;
    for (auto &kv : d) f.allowed.insert(kv.first);
    f.w = &m.prio;
    Best best;
    best.arg = a.min;
    if (!grow(f, seed, {seed}, m.deg(seed) + nb[seed] - 1, best))
      return "seed " + std::to_string(seed)
        + ": not the coarse cell of the documented growth"
        + (_first_leaf.empty() ? std::string()
                               : ", expected " + _first_leaf);
    for (auto c : actual) agg[c] = true;
    std::map<int, std::vector<Idx>> by;
    std::set<Idx> seen;
    for (auto c : actual)
      for (Idx e = m.row[c]; e < m.row[c + 1]; ++e) {
        const Idx x = m.col[e];
        if (agg[x] || !seen.insert(x).second) continue;
        auto it = d.find(x);
        by[it == d.end() ? std::numeric_limits<int>::max() : it->second]
          .push_back(x);
      }
    for (auto &kv : by) pool.ordered_update(kv.second);
    return "";
  }
  static std::string show_set(const std::set<Idx> &s) {
    return show(std::vector<Idx>(s.begin(), s.end()));
  }

private:
  struct Best {
    int arg = 0, compact = 0, ext = std::numeric_limits<int>::max();
    std::set<Idx> cc;
  };
  const std::map<Idx, int> *_d = nullptr;
  const std::set<Idx> *_actual = nullptr;
  Idx _seed = 0;
  int _max_ind = 0;
  long _nodes = 0, _looks = 0;
  std::string _first_leaf;

  static bool subset(const std::set<Idx> &x, const std::set<Idx> &y) {
    return std::includes(y.begin(), y.end(), x.begin(), x.end());
  }
  struct Cand {
    Idx c;
    int faces, order;
    int score;  // faces, or more if a later step foreseen shares more
    Feat ft;  // of the cell whose aspect ratio counts
    Real own, ar;  // aspect ratio with this candidate, and the one that counts
  };
  bool same(Real x, Real y) const {
    return std::fabs(x - y) <= tol * std::max(std::fabs(x), std::fabs(y));
  }
  // Best candidates when foreseeing the given number of steps: several only if
  // their aspect ratios are closer than rounding
  std::vector<Cand> choose(
    const FrontModel &f, const std::set<Idx> &cc, int steps
  ) {
    std::vector<Cand> v, r;
    for (auto c : f.cand) {
      Cand x{c, 0, _d->at(c), 0, {}, -1., -1.};
      for (Idx e = m.row[c]; e < m.row[c + 1]; ++e)
        x.faces += cc.count(m.col[e]) != 0;
      x.score = x.faces;
      if (steps > 1) {
        measure(x, cc);
        if (++_looks > 20000) throw Abandon{"too many steps foreseen"};
        std::set<Idx> t(cc);
        t.insert(c);
        FrontModel g(f);
        g.add(m, c);
        auto next = choose(g, t, steps - 1);
        for (size_t i = 1; i < next.size(); ++i)
          if (next[i].faces != next[0].faces) throw Abandon{"near tie foreseen"};
        if (!next.empty()) {
          x.score = std::max(x.faces, next[0].faces);
          if (next[0].faces > x.faces) ++foreseen;
          if (next[0].faces == x.faces) {
            for (auto &y : next) measure(y, t);
            for (auto &y : next)
              if (!same(y.own, next[0].own)) throw Abandon{"near tie foreseen"};
            if (same(next[0].own, x.own) && next[0].own != x.own)
              throw Abandon{"near tie foreseen"};
            // diameter over smallest edge: both are equal with two cells,
            // nothing foreseen is better
            if (next[0].own < x.own && !(a.ar == 1 && cc.size() == 1)) {
              x.ar = next[0].own;
              x.ft = next[0].ft;
              if (next.size() > 1) x.ft.est_inexact = true;
              ++child_ar;
            }
          }
        }
      }
      v.push_back(x);
    }
    int mf = 0, mo = std::numeric_limits<int>::max();
    for (auto &x : v) mf = std::max(mf, x.score);
    for (auto &x : v)
      if (x.score == mf) mo = std::min(mo, x.order);
    std::vector<Cand> k;
    for (auto &x : v)
      if (x.score == mf && x.order == mo) k.push_back(x);
    if (k.size() <= 1) return k;
    Real lo = std::numeric_limits<Real>::infinity();
    for (auto &x : k) {
      if (x.ar < 0) measure(x, cc);
      lo = std::min(lo, x.ar);
    }
    std::vector<std::vector<Real>> classes;
    for (auto &x : k) {
      if (x.ar > lo * (1 + tol)) continue;
      if (exact && ar_exact(x.ft, a.ar)) {
        const auto in = ar_inputs(x.ft, a.ar);
        if (std::find(classes.begin(), classes.end(), in) != classes.end()) {
          ++ties;
          continue;
        }
        classes.push_back(in);
      }
      r.push_back(x);
    }
    return r;
  }
  void measure(Cand &x, const std::set<Idx> &cc) const {
    std::set<Idx> t(cc);
    t.insert(x.c);
    x.ft = features(m, t);
    if (a.ar == 8 && x.ft.tol_close) throw Abandon{"tolerance"};
    x.own = x.ar = aspect_ratio(x.ft, a.ar, m.dim);
  }
  // true if the growth can end with the actual coarse cell
  bool grow(FrontModel f, Idx last, std::set<Idx> cc, int ext, Best best) {
    if (++_nodes > 2000) throw Abandon{"too many near ties"};
    const int size = static_cast<int>(cc.size());
    if (size == _max_ind) {
      if (_first_leaf.empty()) _first_leaf = show_set(best.cc);
      return best.cc == *_actual;
    }
    // a path can only end with the actual cell if it goes through it
    f.add(m, last);
    const auto choices = choose(f, cc, std::min(_max_ind - size, a.fc_iter));
    if (choices.empty()) return false;
    if (choices.size() > 1) ++ambiguous;
    for (auto &ch : choices) {
      const Idx c = ch.c;
      std::set<Idx> t(cc);
      t.insert(c);
      // prune: the prefix as long as the actual cell must be the actual cell
      if (choices.size() > 1) {
        if (t.size() <= _actual->size() ? !subset(t, *_actual)
                                        : !subset(*_actual, t))
          continue;
      }
      const int e2 = ext + static_cast<int>(m.deg(c)) + nb[c] - 1 - 2 * ch.faces;
      Best b2 = best;
      const int sz = size + 1;
      if (sz >= a.min || sz == _max_ind) {
        const int cp = compactness(m, t);
        if (cp > b2.compact
            || (cp == b2.compact
                && (e2 < b2.ext || (e2 == b2.ext && b2.arg != a.goal)))) {
          b2.compact = cp;
          b2.ext = e2;
          b2.arg = sz;
          b2.cc = t;
        }
      }
      if (grow(f, c, t, e2, b2)) return true;
    }
    return false;
  }
};

// ------------------------------------------------------------ line building
inline std::vector<std::vector<Idx>> build_lines_model(
  const Mesh &m, const Args &a, Real tol = 1e-12, bool exact = true
) {
  const size_t n = m.n();
  const Real thr = (a.thr > 1 || a.thr < 0) ? a.thr : 1. / a.thr;
  std::vector<bool> todo(n, false);
  std::vector<Idx> seeds;
  const std::set<Idx> comp(a.compliant.begin(), a.compliant.end());
  std::vector<Real> wt(m.w), mx(n, 0.);
  for (auto c : comp) {
    Real lo = std::numeric_limits<Real>::max(), hi = 0;
    for (Idx e = m.row[c]; e < m.row[c + 1]; ++e) {
      lo = std::min(lo, m.w[e]);
      hi = std::max(hi, m.w[e]);
      if (a.coupling == 1) wt[e] = 1. / sqdist(m.cen[c], m.cen[m.col[e]]);
      mx[c] = std::max(mx[c], wt[e]);
    }
    bool tag = a.thr < 0;
    if (!tag && m.deg(c) > 0) {
      const Real r = hi / lo, t = m.dim == 2 ? r : std::sqrt(r);
      if (std::fabs(t - thr) < tol * thr && (t != thr || !exact))
        throw Abandon{"anisotropy threshold"};
      tag = t >= thr;
    }
    if (tag) {
      todo[c] = true;
      seeds.push_back(c);
    }
  }
  std::sort(seeds.begin(), seeds.end(), [&](Idx x, Idx y) {
    return m.prio[x] != m.prio[y] ? m.prio[x] > m.prio[y] : x < y;
  });
  auto high = [&](Idx c, Idx e) {
    const Real lim = 0.9 * mx[c];
    if (std::fabs(wt[e] - lim) < tol * mx[c]) throw Abandon{"90% coupling"};
    return wt[e] > lim;
  };
  auto dir = [&](Idx from, Idx to) {
    std::vector<Real> d(m.cen[from].size());
    Real q = 0;
    for (size_t k = 0; k < d.size(); ++k) {
      d[k] = m.cen[to][k] - m.cen[from][k];
      q += d[k] * d[k];
    }
    for (auto &x : d) x /= std::sqrt(q);
    return d;
  };
  const Real cosl = 0.9396926207859084;
  // best aligned unused neighbour
  auto by_dir = [&](Idx c, const std::vector<Real> &prev, bool weight)
    -> std::optional<Idx> {
    std::vector<std::pair<Real, Idx>> v;
    for (Idx e = m.row[c]; e < m.row[c + 1]; ++e) {
      const Idx x = m.col[e];
      if (!todo[x] || (weight && !high(c, e))) continue;
      const auto d = dir(c, x);
      Real dot = 0;
      for (size_t k = 0; k < d.size(); ++k) dot += d[k] * prev[k];
      if (std::fabs(dot - cosl) < tol) throw Abandon{"20 degrees"};
      if (dot > cosl) v.emplace_back(-dot, x);
    }
    if (v.empty()) return std::nullopt;
    std::sort(v.begin(), v.end());
    if (v.size() > 1 && std::fabs(v[0].first - v[1].first) < tol)
      throw Abandon{"equally aligned"};
    return v[0].second;
  };
  auto by_weight = [&](Idx c) -> std::optional<Idx> {
    std::optional<Idx> r;
    Real best = 0;
    for (Idx e = m.row[c]; e < m.row[c + 1]; ++e) {
      const Idx x = m.col[e];
      if (!todo[x] || !high(c, e)) continue;
      if (r && a.coupling == 1 && (wt[e] != best || !exact)
          && std::fabs(wt[e] - best) < tol * best)
        throw Abandon{"equal distance"};
      if (!r || wt[e] > best || (wt[e] == best && x < *r)) {
        best = wt[e];
        r = x;
      }
    }
    return r;
  };
  std::vector<std::vector<Idx>> lines;
  for (auto s : seeds) {
    if (!todo[s]) continue;
    todo[s] = false;
    std::deque<Idx> line{s};
    std::vector<Real> first_dir;
    for (int side = 0; side < 2; ++side) {
      Idx cur = s;
      std::vector<Real> prev;
      if (side == 1) {
        if (line.size() == 1) break;  // nothing found the first time
        prev = first_dir;
        for (auto &x : prev) x = -x;
      }
      for (;;) {
        std::optional<Idx> nx;
        if (!a.force_dir || line.size() == 1) {
          nx = by_weight(cur);
        } else {
          nx = by_dir(cur, prev, true);
          if (!nx) nx = by_dir(cur, prev, false);
        }
        if (!nx) break;
        prev = dir(cur, *nx);
        if (first_dir.empty()) first_dir = prev;
        cur = *nx;
        todo[cur] = false;
        if (side == 0)
          line.push_back(cur);
        else
          line.push_front(cur);
      }
    }
    if (line.size() > 1) lines.emplace_back(line.begin(), line.end());
  }
  return lines;
}

// ------------------------------------------------------------- line pairing
struct Paired {
  std::vector<std::vector<Idx>> ccs;  // in order of creation and along the line
  std::vector<size_t> per_line;  // number of coarse cells of each line
};
inline Paired pair_lines_model(
  const Mesh &m, const Args &a, const std::vector<std::vector<Idx>> &lines
) {
  Paired p;
  for (auto line : lines) {
    if (line.size() < 2) continue;
    if (better(m, line.back(), line.front()))
      std::reverse(line.begin(), line.end());
    size_t use = line.size();
    if (a.max_line && *a.max_line < use) use = *a.max_line;
    size_t made = 0;
    for (size_t i = 0; i + 2 <= use; i += 2) {
      std::vector<Idx> cc{line[i], line[i + 1]};
      if (use - i == 3 && a.odd) {
        cc.push_back(line[i + 2]);
        ++i;
      }
      p.ccs.push_back(cc);
      ++made;
    }
    p.per_line.push_back(made);
  }
  return p;
}

inline std::vector<std::vector<Idx>> split_lines(
  const std::vector<Idx> &lidx, const std::vector<Idx> &lines
) {
  std::vector<std::vector<Idx>> r;
  for (size_t i = 0; i + 1 < lidx.size(); ++i)
    r.emplace_back(lines.begin() + lidx[i], lines.begin() + lidx[i + 1]);
  return r;
}

// --------------------------------------------------------------- correction
// Whether the corrected coarse cells can result from the documented choices.
// Several results are possible because a multi-cell singular coarse cell is dissolved cell by cell
// in no documented order.
struct CorrModel {
  const Mesh &m;
  int thresh;
  std::vector<bool> iso;  // by coarse ID
  size_t whole = 0, single = 0, compact_inc = 0, split = 0;
  long nodes = 0;
  using State = std::vector<std::set<Idx>>;  // cells by coarse ID

  bool match(State st, std::vector<Idx> order, const State &goal) {
    return run(st, order, 0, goal);
  }

private:
  std::set<Idx> iso_neighs(
    const State &st, const std::vector<Idx> &f2c, Idx c, Idx own
  ) const {
    std::set<Idx> r;
    for (Idx e = m.row[c]; e < m.row[c + 1]; ++e) {
      const Idx k = f2c[m.col[e]];
      if (k != own && iso[k]) r.insert(k);
    }
    return r;
  }
  std::vector<Idx> map_of(const State &st) const {
    std::vector<Idx> f(m.n());
    for (Idx k = 0; k < st.size(); ++k)
      for (auto c : st[k]) f[c] = k;
    return f;
  }
  std::optional<Idx> target(
    const State &st, Idx c, const std::set<Idx> &neighs
  ) {
    std::optional<Idx> r;
    bool rinc = false;
    int rsh = 0;
    size_t rcard = 0;
    for (auto k : neighs) {  // ascending IDs
      std::set<Idx> t(st[k]);
      const int old = compactness(m, t);
      t.insert(c);
      const bool inc = compactness(m, t) > old;
      int sh = 0;
      for (Idx e = m.row[c]; e < m.row[c + 1]; ++e)
        sh += st[k].count(m.col[e]) != 0;
      const size_t card = st[k].size();
      if (!r || inc > rinc
          || (inc == rinc && (sh > rsh || (sh == rsh && card < rcard)))) {
        r = k;
        rinc = inc;
        rsh = sh;
        rcard = card;
      }
    }
    if (r && rinc) ++compact_inc;
    return r;
  }
  // cell by cell in the given order; returns whether something moved
  bool dissolve(State &st, Idx k, const std::vector<Idx> &perm, bool stale) {
    auto f2c = map_of(st);
    std::map<Idx, std::set<Idx>> old;
    for (auto c : perm) old[c] = iso_neighs(st, f2c, c, k);
    std::vector<Idx> left;
    bool moved = false;
    auto mv = [&](Idx c, const std::set<Idx> &nb) {
      const auto t = target(st, c, nb);
      if (!t) return false;
      st[k].erase(c);
      st[*t].insert(c);
      f2c[c] = *t;
      moved = true;
      return true;
    };
    for (auto c : perm)
      if (!mv(c, stale ? old[c] : iso_neighs(st, f2c, c, k))) left.push_back(c);
    bool go = moved;
    while (go && !left.empty()) {
      go = false;
      for (size_t i = 0; i < left.size();) {
        if (mv(left[i], iso_neighs(st, f2c, left[i], k))) {
          left.erase(left.begin() + i);
          go = true;
        } else {
          ++i;
        }
      }
    }
    return moved;
  }
  bool run(State st, const std::vector<Idx> &order, size_t i, const State &goal) {
    if (++nodes > 5000) throw Abandon{"too many orders"};
    for (; i < order.size(); ++i) {
      const Idx k = order[i];
      if (static_cast<int>(st[k].size()) > thresh) continue;
      const auto f2c = map_of(st);
      if (st[k].size() > 1) {
        std::set<Idx> nb;
        for (auto c : st[k]) {
          const auto x = iso_neighs(st, f2c, c, k);
          nb.insert(x.begin(), x.end());
        }
        std::optional<Idx> r;
        for (auto t : nb) {
          std::set<Idx> u(st[t]);
          const int old = compactness(m, u);
          u.insert(st[k].begin(), st[k].end());
          if (compactness(m, u) > old && (!r || st[t].size() < st[*r].size()))
            r = t;
        }
        if (r) {
          ++whole;
          st[*r].insert(st[k].begin(), st[k].end());
          st[k].clear();
          continue;
        }
        if (nb.empty()) continue;
        ++split;
        if (st[k].size() > 5) throw Abandon{"large singular cell"};
        std::vector<Idx> perm(st[k].begin(), st[k].end());
        std::set<State> outs;
        do {
          for (int stale = 0; stale < 2; ++stale) {
            State s2(st);
            dissolve(s2, k, perm, stale);
            outs.insert(s2);
          }
        } while (std::next_permutation(perm.begin(), perm.end()));
        if (outs.size() == 1) {
          st = *outs.begin();
          continue;
        }
        for (auto &o : outs)
          if (run(o, order, i + 1, goal)) return true;
        return false;
      }
      const std::vector<Idx> one(st[k].begin(), st[k].end());
      if (dissolve(st, k, one, true)) ++single;
    }
    // removed coarse cells give their ID back, the others keep their order
    State left;
    for (auto &x : st)
      if (!x.empty()) left.push_back(x);
    return left == goal;
  }
};

}  // namespace pbt
