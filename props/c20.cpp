// C20: results depend on the arguments only
//
// Every distinct call is evaluated once in a fresh process with empty outputs;
// then a whole sequence of calls is made in one process, reusing the same
// input and output vectors, and each result has to be the one of the fresh
// process.  The worker itself never calls the library.
#include <sys/wait.h>
#include <unistd.h>

#include <cstring>

#include "common.h"
using namespace pbt;

namespace {

using Flat = std::vector<double>;
template<typename T>
void put(Flat &f, const std::vector<T> &v) {
  f.push_back(static_cast<double>(v.size()));
  for (auto &x : v) f.push_back(static_cast<double>(x));
}

enum Op { SINGLE = 0, GROUPED, COARSE, WALL, FILTER, N_OPS };
const char *const NAMES[] = {
  "agglomeration", "agglomeration with grouped arguments", "coarse graph",
  "wall distance", "filter"};

struct Data {
  Mesh m;
  Args a;
  std::vector<Idx> f2c;  // for the coarse graph
  std::vector<Idx> wall;
  std::unordered_set<Int> allowed;
};
struct Outputs {
  std::vector<Idx> f2c, lidx, lines, cidx, cadj, filtered;
  std::vector<Real> cw, cvol, cprio;
  std::vector<std::vector<Real>> ccen;
  std::vector<Int> cnb;
  std::vector<int> dist;
};

Flat call(int op, const Data &d, Outputs &o) {
  Flat f;
  const Mesh &m = d.m;
  const Args &a = d.a;
  switch (op) {
    case SINGLE:
    case GROUPED: {
      if (a.is_aniso && !a.build_lines) {
        o.lidx = a.lidx;
        o.lines = a.lines;
      }
      if (op == SINGLE) {
        raw_call<>(
          m.row, m.col, m.w, m.vol, m.cen, m.prio, m.nbnd, m.dim, a, o.f2c,
          o.lidx, o.lines
        );
      } else {
        comma::GraphArgs<Idx, Real, Int> g(
          m.row, m.col, m.w, m.vol, m.cen, m.prio, m.nbnd, m.dim
        );
        comma::AgglomerationArgs<Idx, Real, Int> ag(
          a.goal, a.min, a.max, a.corr,
          static_cast<comma::CoMMASeedsPoolT>(a.pool),
          static_cast<comma::CoMMAAspectRatioT>(a.ar), a.sing, a.fc_iter,
          static_cast<comma::CoMMANeighbourhoodT>(a.nbh)
        );
        std::optional<Idx> ml;
        if (a.max_line) ml = static_cast<Idx>(*a.max_line);
        comma::AnisotropicArgs<Idx, Real, Int> an(
          a.is_aniso, a.compliant, a.build_lines, a.odd, a.thr, ml,
          static_cast<comma::CoMMACellCouplingT>(a.coupling), a.force_dir
        );
        comma::agglomerate_one_level<Idx, Real, Int>(
          g, ag, an, o.f2c, o.lidx, o.lines
        );
      }
      put(f, o.f2c);
      if (aniso_active(a)) {
        put(f, o.lidx);
        put(f, o.lines);
      }
      break;
    }
    case COARSE:
      comma::build_coarse_graph<Idx, Real, Int>(
        d.f2c, m.row, m.col, m.w, m.vol, m.cen, m.prio, m.nbnd, o.cidx, o.cadj,
        o.cw, o.cvol, o.ccen, o.cprio, o.cnb
      );
      put(f, o.cidx);
      put(f, o.cadj);
      put(f, o.cw);
      put(f, o.cvol);
      for (auto &x : o.ccen) put(f, x);
      put(f, o.cprio);
      put(f, o.cnb);
      break;
    case WALL:
      comma::compute_neighbourhood_based_wall_distance<Idx, int>(
        m.row, m.col, d.wall, o.dist
      );
      put(f, o.dist);
      break;
    default:
      comma::filter_cells_by_n_edges<Idx, Int>(
        m.row, m.nbnd, d.allowed, o.filtered
      );
      put(f, o.filtered);
  }
  return f;
}

// runs f in a child process, which sends back what f returns
template<typename F>
std::string in_child(const F &f) {
  int fd[2];
  if (pipe(fd) != 0) throw std::runtime_error("pipe");
  const pid_t pid = fork();
  if (pid < 0) throw std::runtime_error("fork");
  if (pid == 0) {
    close(fd[0]);
    std::string r;
    try {
      r = "R" + f();
    } catch (const std::exception &e) {
      r = std::string("E") + e.what();
    }
    size_t done = 0;
    while (done < r.size()) {
      const ssize_t k = write(fd[1], r.data() + done, r.size() - done);
      if (k <= 0) _exit(4);
      done += k;
    }
    _exit(0);
  }
  close(fd[1]);
  std::string r;
  char buf[65536];
  ssize_t k = 0;
  while ((k = read(fd[0], buf, sizeof buf)) > 0) r.append(buf, k);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || r.empty())
    throw Fail{"the process making the calls crashed"};
  if (r[0] == 'E') throw Fail{"unexpected exception: " + r.substr(1)};
  return r.substr(1);
}

Data gen_data(Src &s, int tier) {
  Data d;
  GenOpts go;
  go.max_n = tier ? 60 : 30;
  go.stretched = s.chance(1, 2);
  d.m = gen_mesh(s, go);
  ArgOpts ao;
  d.a = gen_args(s, d.m, ao);
  const Idx n = d.m.n();
  d.f2c.resize(n);
  // every coarse ID is used
  const Idx k = 1 + s.draw(n);
  for (Idx i = 0; i < n; ++i) d.f2c[i] = i < k ? i : s.draw(k);
  const size_t nw = s.draw(4);
  for (size_t i = 0; i < nw; ++i) d.wall.push_back(s.draw(n));
  const size_t na = s.draw(4);
  for (size_t i = 0; i < na; ++i) d.allowed.insert(static_cast<Int>(s.draw(8)));
  return d;
}
// same sizes, other contents
Data variant(Src &s, const Data &d) {
  Data v = d;
  switch (s.draw(5)) {
    case 0:
      for (auto &p : v.m.prio) p = static_cast<Real>(s.draw(40));
      break;
    case 1: {
      v.a.min = v.a.goal = v.a.max = 2 + static_cast<int>(s.draw(6));
      v.a.sing = 1;
      break;
    }
    case 2:
      v.a.ar = static_cast<int>(s.draw(10));
      v.a.pool = static_cast<int>(s.pick({0, 1, 10, 11}));
      break;
    case 3:
      for (Idx i = 0; i < v.m.n(); ++i)
        for (Idx e = v.m.row[i]; e < v.m.row[i + 1]; ++e)
          v.m.w[e] = std::exp2(
            static_cast<double>((i * 7 + v.m.col[e] * 7) % 5) - 2
          );
      break;
    default:
      for (auto &x : v.m.vol) x = dyadic(s);
      for (auto &b : v.m.nbnd) b = static_cast<int>(s.draw(4));
  }
  return v;
}
bool same_inputs(const Data &x, const Data &y) {
  return x.m.row == y.m.row && x.m.col == y.m.col && x.m.w == y.m.w
    && x.m.vol == y.m.vol && x.m.cen == y.m.cen && x.m.prio == y.m.prio
    && x.m.nbnd == y.m.nbnd && x.a.compliant == y.a.compliant && x.f2c == y.f2c
    && x.wall == y.wall && x.allowed == y.allowed;
}

void run(Case &c) {
  std::vector<Data> sets;
  sets.push_back(gen_data(c.s, c.tier));
  sets.push_back(c.s.coin() ? variant(c.s, sets[0]) : gen_data(c.s, c.tier));
  if (c.s.chance(1, 4)) sets.push_back(gen_data(c.s, c.tier));
  std::vector<std::pair<int, size_t>> seq;
  const size_t len = 3 + c.s.draw(6);
  for (size_t i = 0; i < len; ++i)
    seq.emplace_back(
      c.s.chance(1, 3) ? static_cast<int>(c.s.draw(N_OPS)) : 0,
      c.s.draw(sets.size())
    );
  for (auto &d : sets)
    c.say(describe(d.m) + describe(d.a) + " f2c " + show(d.f2c) + "\n");
  for (auto &[op, k] : seq)
    c.say(std::string(" ") + NAMES[op] + " of " + std::to_string(k));
  std::map<std::pair<int, size_t>, Flat> truth;
  for (auto &q : seq) {
    // both entry points share the truth
    const std::pair<int, size_t> key{q.first == GROUPED ? 0 : q.first, q.second};
    if (truth.count(key)) continue;
    const std::string r = in_child([&] {
      Outputs o;
      const Flat f = call(key.first, sets[key.second], o);
      return std::string(
        reinterpret_cast<const char *>(f.data()), f.size() * sizeof(double)
      );
    });
    Flat f(r.size() / sizeof(double));
    if (!f.empty()) memcpy(f.data(), r.data(), r.size());
    truth[key] = f;
  }
  const std::string bad = in_child([&]() -> std::string {
    Outputs o;
    o.f2c = {1, 2};
    o.lidx = {0, 9};
    o.lines = {4, 4, 4};
    o.cw = {3.};
    o.dist = {5, 5};
    Data cur;
    for (size_t i = 0; i < seq.size(); ++i) {
      const auto &[op, k] = seq[i];
      cur = sets[k];  // same addresses wherever possible
      const Flat f = call(op, cur, o);
      const auto t = truth.find({op == GROUPED ? 0 : op, k});
      if (f != t->second)
        return "call " + std::to_string(i) + " (" + NAMES[op] + " of set "
          + std::to_string(k) + ") gives " + show(f)
          + " instead of the result in a fresh process " + show(t->second);
      if (!same_inputs(cur, sets[k]))
        return "call " + std::to_string(i) + " (" + NAMES[op]
          + ") changed its inputs";
    }
    return "";
  });
  PBT_CHECK(c, bad.empty(), bad);
  std::set<std::pair<int, size_t>> distinct(seq.begin(), seq.end());
  c.nontrivial = distinct.size() > 1 && distinct.size() < seq.size();
  for (auto &q : distinct) c.label_if(q.first > 0, NAMES[q.first]);
  c.label_if(sets[0].m.n() == sets[1].m.n(), "sets of the same size");
  c.label_if(sets[0].a.is_aniso || sets[1].a.is_aniso, "anisotropic");
}

}  // namespace

const Property pbt::PROPERTY{
  "C20",
  "two or three random argument sets and a random sequence of three to eight "
  "calls of the five entry points on them, with reused vectors; non-trivial: "
  "at least two distinct calls and at least one repeated",
  run, 6000, 60000};
