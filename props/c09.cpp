// C09: seeds pool against its model, over call histories
#include "model.h"
using namespace pbt;

static void run(Case &c) {
  Src &s = c.s;
  const size_t n = 1 + s.draw(c.tier ? 40 : 20);
  std::vector<Int> nb(n);
  std::vector<Real> w(n);
  const int lv = 1 + static_cast<int>(s.draw(4));
  const int wk = s.draw(4);
  for (size_t i = 0; i < n; ++i) {
    nb[i] = static_cast<int>(s.draw(lv));
    switch (wk) {
      case 0: w[i] = static_cast<Real>(n - i); break;
      case 1: w[i] = static_cast<Real>(s.draw(3)); break;
      case 2: w[i] = -static_cast<Real>(s.draw(5)) / 2; break;
      default: w[i] = static_cast<Real>(s.draw(40)) - 20;
    }
  }
  const bool one = s.coin(), neigh = s.coin();
  std::ostringstream d;
  d << "n_bnd=" << show(nb) << " weights=" << show(w) << " one=" << one
    << " neigh=" << neigh << " history:";
  std::unique_ptr<comma::Seeds_Pool<Idx, Real, Int>> pool;
  if (neigh)
    pool = std::make_unique<
      comma::Seeds_Pool_Neighbourhood_Priority<Idx, Real, Int>>(nb, w, one);
  else
    pool =
      std::make_unique<comma::Seeds_Pool_Boundary_Priority<Idx, Real, Int>>(
        nb, w, one
      );
  PoolModel model(nb, w, one, neigh);
  std::vector<bool> agg(n, false);
  size_t left = n;
  auto mark = [&](Idx i) {
    if (!agg[i]) {
      agg[i] = true;
      --left;
    }
  };
  auto free_cells = [&](size_t k) {
    std::vector<Idx> v;
    for (size_t j = 0; j < k && left > 0; ++j) {
      Idx i = s.draw(n);
      while (agg[i]) i = (i + 1) % n;
      v.push_back(i);
    }
    return v;
  };
  // beginning: plain initialisation, or what follows an anisotropic stage
  const bool aniso = s.chance(1, 3);
  PBT_CHECK(
    c, pool->need_initialization(agg), "a new pool needs no initialisation"
  );
  PBT_CHECK(c, pool->is_empty(), "a new pool is not empty");
  for (int l = 0; l < 4; ++l)
    PBT_CHECK(c, pool->is_empty(l), "queue " << l << " of a new pool is not empty");
  // a queue with a free cell is not empty
  auto verify_queues = [&]() {
    for (int l = 0; l < 4; ++l)
      for (auto i : model.q[l])
        if (!agg[i])
          PBT_CHECK(
            c, !pool->is_empty(l) && !pool->is_empty(),
            "queue " << l << " is said to be empty, " << i << " is in there"
          );
  };
  if (!aniso) {
    pool->initialize();
    model.initialize();
    d << " init";
  } else {
    const size_t k = s.draw(n);
    for (size_t j = 0; j < k && left > 1; ++j) {
      const Idx i = s.draw(n);
      if (!agg[i]) d << " agg" << i;
      mark(i);
    }
    const auto v = free_cells(s.draw(6));
    if (!v.empty()) {
      // as done for the neighbours of the anisotropic cells
      if (!s.chance(1, 4)
          && if_there(
            *pool,
            [&](auto &p) -> decltype(void(p.set_top_queue(nb[v.front()]))) {
              p.set_top_queue(nb[v.front()]);
            },
            0
          )) {
        model.top = nb[v.front()];
        d << " top" << model.top;
      }
      if (s.chance(1, 4)) {
        const std::set<Idx> u(v.begin(), v.end());
        pool->order_new_seeds_and_update({u.begin(), u.end()});
        model.ordered_update({u.begin(), u.end()});
        d << " ordered";
      } else {
        pool->update(std::deque<Idx>(v.begin(), v.end()));
        model.update(v);
      }
    }
    d << " update" << show(v);
    const bool x = pool->need_initialization(agg), y = model.need_init(agg);
    c.say(d.str());
    PBT_CHECK(
      c, x == y,
      "initialisation after an update is said " << (x ? "" : "not ")
                                                << "to be needed"
    );
    if (x) {
      pool->initialize();
      model.initialize();
      d << " init";
    }
  }
  size_t served = 0, updates = 0;
  while (served <= n + 2) {
    // new seeds (free cells), as sets ordered by the pool or as they are
    const size_t nu = s.draw(3);
    for (size_t j = 0; j < nu && left > 0; ++j) {
      const bool ordered = !s.chance(1, 4);
      auto v = free_cells(1 + s.draw(5));
      if (ordered) {
        std::set<Idx> u(v.begin(), v.end());
        v.assign(u.begin(), u.end());
        pool->order_new_seeds_and_update(
          std::unordered_set<Idx>(v.begin(), v.end())
        );
        model.ordered_update(v);
        d << " order" << show(v);
      } else {
        pool->update(std::deque<Idx>(v.begin(), v.end()));
        model.update(v);
        d << " update" << show(v);
      }
      ++updates;
    }
    verify_queues();
    const bool all = left == 0;
    const auto got = pool->choose_new_seed(agg);
    const auto exp = model.choose(agg);
    d << " choose";
    if (got)
      d << "=" << *got;
    else
      d << "=none";
    c.desc.clear();
    c.say(d.str());
    if (all) {
      PBT_CHECK(c, !got, "a seed is given although all is agglomerated");
      break;
    }
    PBT_CHECK(c, got.has_value(), "no seed although cells are left");
    PBT_CHECK(c, *got < n && !agg[*got], "agglomerated cell given as seed");
    PBT_CHECK(
      c, exp && *got == *exp,
      "seed " << *got << " instead of " << (exp ? static_cast<long>(*exp) : -1)
    );
    ++served;
    mark(*got);
    const size_t k = s.draw(4);
    for (size_t j = 0; j < k && left > 0; ++j) {
      const Idx i = s.draw(n);
      if (!agg[i]) d << " agg" << i;
      mark(i);
    }
  }
  c.nontrivial = served >= 3 && updates >= 2;
  c.label_if(neigh, "neighbourhood");
  c.label_if(one, "one point");
  c.label_if(aniso, "after anisotropic stage");
}

const Property pbt::PROPERTY{
  "C09",
  "random boundary counts and weights x random history of initialisation, "
  "(ordered) updates with free cells, seed requests and agglomerated cells; "
  "non-trivial: three or more seeds given and two or more updates",
  run, 200000, 2000000};
