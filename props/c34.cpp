// C34: calls made at the same time from several threads do not disturb each
// other
//
// Built with the thread sanitizer: a data race ends the case.
//@sanitize thread
//@ldflags -pthread
#include <atomic>
#include <thread>

#include "common.h"
using namespace pbt;

// a race ends the process, hence is seen by the engine
extern "C" const char *__tsan_default_options() {
  return "halt_on_error=1:exitcode=66";
}

namespace {
struct Job {
  const Mesh *m;
  Args a;
  int op;  // 0 agglomeration, 1 then coarse graph, 2 wall distance, 3 filter
};
struct Res {
  Out o;
  std::vector<Idx> cidx, cadj, filtered;
  std::vector<Real> cw, cvol, cprio;
  std::vector<std::vector<Real>> ccen;
  std::vector<Int> cnb;
  std::vector<int> dist;
  bool operator==(const Res &r) const {
    return o.f2c == r.o.f2c && o.lidx == r.o.lidx && o.lines == r.o.lines
      && cidx == r.cidx && cadj == r.cadj && filtered == r.filtered
      && cw == r.cw && cvol == r.cvol && cprio == r.cprio && ccen == r.ccen
      && cnb == r.cnb && dist == r.dist;
  }
};
Res work(const Job &j) {
  Res r;
  const Mesh &m = *j.m;
  switch (j.op) {
    case 2:
      comma::compute_neighbourhood_based_wall_distance<Idx, int>(
        m.row, m.col, {0, static_cast<Idx>(m.n() / 2)}, r.dist
      );
      break;
    case 3:
      comma::filter_cells_by_n_edges<Idx, Int>(
        m.row, m.nbnd, {3, 4}, r.filtered
      );
      break;
    default:
      r.o = agglomerate(m, j.a);
      if (j.op == 1)
        comma::build_coarse_graph<Idx, Real, Int>(
          r.o.f2c, m.row, m.col, m.w, m.vol, m.cen, m.prio, m.nbnd, r.cidx,
          r.cadj, r.cw, r.cvol, r.ccen, r.cprio, r.cnb
        );
  }
  return r;
}

void run(Case &c) {
  Src &s = c.s;
  const size_t nm = 1 + s.draw(3);
  std::vector<Mesh> ms;
  for (size_t i = 0; i < nm; ++i) {
    GenOpts go;
    go.max_n = c.tier ? 80 : 40;
    ms.push_back(gen_mesh(s, go));
    c.say(describe(ms.back()));
  }
  const size_t nj = 2 + s.draw(3);
  std::vector<Job> jobs;
  for (size_t i = 0; i < nj; ++i) {
    const Mesh &m = ms[s.draw(nm)];
    Job j{&m, gen_args(s, m), 0};
    if (s.chance(1, 3)) j.op = 1 + static_cast<int>(s.draw(3));
    c.say(" | thread " + std::to_string(i) + describe(j.a));
    jobs.push_back(j);
  }
  // together first: what is set up at the first call must be safe, too
  std::vector<Res> together(nj), again(nj);
  std::vector<std::string> error(nj);
  for (int rep = 0; rep < 3; ++rep) {
    std::atomic<size_t> ready{0};
    std::vector<std::thread> ts;
    for (size_t i = 0; i < nj; ++i)
      ts.emplace_back([&, i] {
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < nj)
          std::this_thread::yield();
        try {
          (rep == 0 ? together : again)[i] = work(jobs[i]);
        } catch (const std::exception &e) {
          error[i] = e.what();
        }
      });
    for (auto &t : ts) t.join();
    PBT_CHECK(
      c, rep == 0 || again == together, "not the same when repeated"
    );
  }
  bool agg = false;
  for (size_t i = 0; i < nj; ++i) {
    PBT_CHECK(c, error[i].empty(), "thread " << i << ": " << error[i]);
    const Res alone = work(jobs[i]);
    PBT_CHECK(
      c, alone == together[i],
      "thread " << i << " got " << show(together[i].o.f2c) << " instead of "
                << show(alone.o.f2c) << " when run alone"
    );
    agg = agg || jobs[i].op < 2;
  }
  c.nontrivial = agg && ms[0].n() > 4;
  c.label_if(nm < nj, "shared inputs");
}
}  // namespace

const Property pbt::PROPERTY{
  "C34",
  "one to three random meshes x two to four concurrent calls with random "
  "arguments; non-trivial: at least one agglomeration on more than four cells",
  run, 4000, 40000};
