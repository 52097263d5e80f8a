// C31: the deprecated containers against the models they describe
#include "CoMMA/deprecated/Bimap.h"
#include "CoMMA/deprecated/Priority_Pair.h"
#include "CoMMA/deprecated/Queue.h"
#include "CoMMA/deprecated/Tree.h"

#include "common.h"
#include <deque>
#include <map>
using namespace pbt;

// PBT_MINIMAL: only what the tests of the library use, too (see check.py)
namespace {
std::string str(long v) { return std::to_string(v); }

void bimap(Case &c) {
  Src &s = c.s;
  comma::Bimap<Idx, long> b;
  std::map<Idx, long> mod;  // injective
  const size_t steps = 1 + s.draw(c.tier ? 40 : 16);
  const Idx ka = 1 + s.draw(8);
  size_t erased = 0, renamed = 0;
  auto fresh_b = [&](long v) {
    for (auto &[k, w] : mod)
      if (w == v) return false;
    return true;
  };
  for (size_t i = 0; i < steps; ++i) {
    const Idx x = s.draw(ka), y = s.draw(ka);
    const long v = static_cast<long>(s.draw(ka)) - 2,
               u = static_cast<long>(s.draw(ka)) - 2;
    switch (s.draw(4)) {
    case 0:
      if (!(mod.count(x) ? mod[x] == v : fresh_b(v))) break;
      c.say(" insert(" + str(x) + "," + str(v) + ")");
      b.insert(x, v);
      mod[x] = v;
      break;
    case 1:
      if (!mod.count(x)) break;
      c.say(" erase(" + str(x) + ")");
      b.erase_B(x);
      mod.erase(x);
      ++erased;
      break;
    case 2:
      if (mod.count(y) && x != y) break;
      c.say(" key " + str(x) + "->" + str(y));
      b.update_nodeB(x, y);
      if (mod.count(x)) {
        const long w = mod[x];
        mod.erase(x);
        mod[y] = w;
        ++renamed;
      }
      break;
#ifndef PBT_MINIMAL
    default:
      if (!fresh_b(u) && u != v) break;
      c.say(" value " + str(v) + "->" + str(u));
      b.update_nodeA(v, u);
      for (auto &[k, w] : mod)
        if (w == v) {
          w = u;
          ++renamed;
          break;
        }
#endif
    }
    PBT_CHECK(c, b.lung() == mod.size(), "size " << b.lung());
    PBT_CHECK(c, b.empty() == mod.empty(), "empty " << b.empty());
    for (const auto &[k, w] : mod) {
      const long gb = b.get_B(k);
      PBT_CHECK(c, gb == w, "value of " << k << " is " << gb);
#ifndef PBT_MINIMAL
      const Idx ga = b.get_A(w);
      PBT_CHECK(c, ga == k, "key of " << w << " is " << ga);
#endif
    }
  }
  c.nontrivial = erased > 0 && renamed > 0;
  c.label("bimap");
}

template<typename T>
void queue(Case &c) {
  Src &s = c.s;
  comma::Queue<T> q;
  std::deque<T> mod;
  const size_t steps = 1 + s.draw(c.tier ? 60 : 24);
  size_t pops = 0;
  bool under = false;
  for (size_t i = 0; i < steps; ++i) {
    if (s.chance(2, 3)) {
      const T v = static_cast<T>(s.draw(10)) - T{2};
      c.say(" push(" + str(v) + ")");
      q.push(v);
      mod.push_back(v);
    } else {
      c.say(" pop");
      const T exp = mod.empty() ? static_cast<T>(-1) : mod.front();
      const T got = q.pop();
      PBT_CHECK(c, got == exp, "popped " << got << " instead of " << exp);
      if (mod.empty()) under = true;
      else mod.pop_front(), ++pops;
    }
    const T exp = mod.empty() ? static_cast<T>(-1) : mod.front();
    PBT_CHECK(c, q.top() == exp, "top " << q.top() << " instead of " << exp);
    PBT_CHECK(c, q.empty() == mod.empty(), "empty " << q.empty());
  }
  c.nontrivial = pops > 1;
  c.label("queue");
  c.label_if(under, "pop of an empty queue");
}

template<typename A, typename B>
void pairs(Case &c) {
  Src &s = c.s;
  using PP = comma::Priority_Pair<A, B>;
  const size_t n = 2 + s.draw(8);
  std::vector<std::pair<A, B>> v(n);
  bool same_first = false;
  for (auto &p : v) {
    p.first = static_cast<A>(s.draw(4)) - A{1};
    p.second = static_cast<B>(s.draw(4)) - B{1};
    std::ostringstream o;
    o << " (" << p.first << "," << p.second << ")";
    c.say(o.str());
  }
  for (auto &p : v)
    for (auto &q : v) {
      const PP a(p.first, p.second), b(q.first, q.second);
      PBT_CHECK(
        c, a.first() == p.first && a.second() == p.second, "stored values"
      );
      const bool exp =
        p.first > q.first || (p.first == q.first && p.second < q.second);
      same_first |= p.first == q.first && p.second != q.second;
      PBT_CHECK(
        c, (a < b) == exp,
        "(" << p.first << "," << p.second << ") < (" << q.first << ","
            << q.second << ") is " << (a < b)
      );
      PBT_CHECK(c, (a == b) == (p == q), "equality is " << (a == b));
    }
  c.nontrivial = same_first;
  c.label("priority pair");
}

#ifndef PBT_MINIMAL
using TreeT = comma::Tree<Idx, Real, Int>;
using NodeT = TreeT::NodeType;
struct MNode {
  Idx idx;
  Real vol;
  std::vector<std::pair<Idx, Real>> sons;
};

void verify_sons(
  Case &c, const std::shared_ptr<NodeT> &father,
  const std::vector<std::pair<Idx, Real>> &exp
) {
  PBT_CHECK(
    c, static_cast<size_t>(father->_sonc) == exp.size(),
    "node " << father->_index << " has " << father->_sonc << " sons instead of "
            << exp.size()
  );
  auto n = father->_left_son_idx;
  std::shared_ptr<NodeT> prev;
  for (const auto &[i, v] : exp) {
    PBT_CHECK(c, n != nullptr, "son " << i << " missing");
    PBT_CHECK(c, n->_index == i, "son " << n->_index << " instead of " << i);
    PBT_CHECK(c, n->_volume == v, "volume of " << i << " is " << n->_volume);
    PBT_CHECK(c, n->_father == father, "father of " << i);
    PBT_CHECK(c, n->_left_idx == prev, "left of " << i);
    prev = n;
    n = n->_right_idx;
  }
  PBT_CHECK(c, n == nullptr, "son " << n->_index << " should not be there");
}

// cut the cycles of shared pointers
void unlink(std::shared_ptr<NodeT> n) {
  while (n) {
    unlink(n->_left_son_idx);
    auto r = n->_right_idx;
    n->_father.reset();
    n->_left_idx.reset();
    n->_right_idx.reset();
    n->_left_son_idx.reset();
    n = r;
  }
}

void tree(Case &c) {
  Src &s = c.s;
  auto root = std::make_shared<NodeT>(100, 1.);
  TreeT t(root);
  std::vector<MNode> mod;
  const size_t steps = 1 + s.draw(c.tier ? 30 : 14);
  size_t del = 0, grand = 0;
  std::vector<std::shared_ptr<NodeT>> gone;
  for (size_t k = 0; k < steps; ++k) {
    const Idx i = s.draw(7);
    const Real v = s.draw(5) * 0.5;
    size_t pos = 0;
    while (pos < mod.size() && mod[pos].idx != i) ++pos;
    switch (s.draw(4)) {
    case 0:
      if (pos < mod.size()) break;
      c.say(" son " + str(i));
      t.insertSon(100, i, v, 1);
      mod.push_back({i, v, {}});
      break;
    case 1: {
      if (mod.empty()) break;
      auto &f = mod[s.draw(mod.size())];
      c.say(" son of " + str(f.idx) + ": " + str(i));
      t.insertSon(f.idx, i, v, 0);
      f.sons.emplace_back(i, v);
      ++grand;
      break;
    }
    case 2:
      c.say(" delete " + str(i));
      if (pos < mod.size()) {
        auto n = root->_left_son_idx;
        for (size_t q = 0; n && q < pos; ++q) n = n->_right_idx;
        gone.push_back(n);
        mod.erase(mod.begin() + pos);
        ++del;
      }
      t.deleteNode(i);
      break;
    default: {
      c.say(" search " + str(i));
      const auto n = t.search(root->_left_son_idx, i);
      PBT_CHECK(c, (n != nullptr) == (pos < mod.size()), "search of " << i);
      if (n) PBT_CHECK(c, n->_index == i, "found " << n->_index);
    }
    }
    std::vector<std::pair<Idx, Real>> sons;
    for (auto &x : mod) sons.emplace_back(x.idx, x.vol);
    verify_sons(c, root, sons);
    auto n = root->_left_son_idx;
    for (auto &x : mod) {
      verify_sons(c, n, x.sons);
      n = n->_right_idx;
    }
    auto last = t.transverse(root->_left_son_idx);
    PBT_CHECK(
      c, mod.empty() ? last == nullptr : (last && last->_index == mod.back().idx),
      "rightmost son"
    );
  }
  unlink(root);
  for (auto &g : gone) {
    if (!g) continue;
    unlink(g->_left_son_idx);
    g->_left_son_idx.reset();
    g->_left_idx.reset();
    g->_right_idx.reset();
    g->_father.reset();
  }
  c.nontrivial = del > 0 && grand > 0;
  c.label("tree");
}
#endif

void run(Case &c) {
  switch (c.s.draw(4)) {
  case 0: bimap(c); break;
  case 1:
    if (c.s.coin()) queue<long>(c);
    else queue<int>(c);
    break;
  case 2:
    if (c.s.coin()) pairs<long, long>(c);
    else pairs<double, int>(c);
    break;
#ifndef PBT_MINIMAL
  default: tree(c);
#else
  default: bimap(c);
#endif
  }
}
}  // namespace

const Property pbt::PROPERTY{
  "C31",
  "random operation sequences within the preconditions; non-trivial: a bimap "
  "with an erasure and a renaming, a queue popped twice, pairs with equal first "
  "elements, or a tree with a deletion and a second level",
  run, 150000, 1500000};
