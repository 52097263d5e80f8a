// Driver: runs the cases of one property in forked workers, attributes
// failures, crashes and hangs to a case, shrinks and writes a replay file.
#include "engine.h"

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <unordered_set>

using namespace pbt;

extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=99:"
         "allocator_may_return_null=0:hard_rss_limit_mb=3000:"
         "detect_stack_use_after_return=1:quarantine_size_mb=16:"
         "malloc_context_size=8:handle_abort=0:symbolize=1";
}
extern "C" const char *__ubsan_default_options() {
  return "halt_on_error=1:exitcode=98:print_stacktrace=0";
}

namespace {

constexpr double CASE_CPU_LIMIT = 40.;  // s of CPU time; cases take ms
constexpr double HUGE_CPU_LIMIT = 100.;  // with huge meshes; they take 10 s
constexpr double SEQUENCE_CPU_LIMIT = 200.;

double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
double cpu_of(pid_t pid) {
  clockid_t c;
  timespec t;
  if (clock_getcpuclockid(pid, &c) != 0 || clock_gettime(c, &t) != 0) return 0;
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
double my_cpu() {
  timespec t;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
uint64_t hash_vec(const std::vector<uint64_t> &v) {
  uint64_t h = 1469598103934665603ULL;
  for (auto x : v) {
    uint64_t s = x + h;
    h = splitmix(s);
  }
  return h;
}
uint64_t case_seed(uint64_t seed, long i) {
  uint64_t s = seed * 0x2545F4914F6CDD1DULL + 7;
  for (const char *p = PROPERTY.id; *p; ++p) s = s * 131 + *p;
  splitmix(s);
  s ^= static_cast<uint64_t>(i) * 0x9E3779B97F4A7C15ULL;
  return splitmix(s);
}

// Runs one case; returns true when it held
bool run_one(Src &src, Case &c, std::string &msg, bool huge = false) {
  if (PROPERTY.huge > 0) c.huge = src.flag(huge);
  c.label_if(c.huge, "huge mesh");
  try {
    PROPERTY.run(c);
    return true;
  } catch (const Fail &f) {
    msg = f.msg;
  } catch (const std::exception &e) {
    msg = std::string("unexpected exception: ") + e.what();
  } catch (...) {
    msg = "unexpected exception of unknown type";
  }
  return false;
}

struct Slot {
  volatile long cur;
  volatile double cpu0;
  volatile long done;
  volatile long nontrivial;
  volatile int finished;
  volatile long fail_case;
  char msg[4096];
};

std::string dir, tier_name = "quick";
int tier = 0;
uint64_t seed = 1;
long n_ordinary = 0;  // the cases from here on have huge meshes
double cpu_limit(bool huge) { return huge ? HUGE_CPU_LIMIT : CASE_CPU_LIMIT; }

void redirect(const std::string &err) {
  int n = open("/dev/null", O_WRONLY);
  dup2(n, 1);
  int e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  dup2(e, 2);
}

std::string crash_summary(const std::string &errfile) {
  std::ifstream f(errfile);
  std::string l, found, where;
  while (std::getline(f, l)) {
    if (l.find("ERROR: ") != std::string::npos
        || l.find("WARNING: ThreadSanitizer") != std::string::npos
        || l.find("runtime error:") != std::string::npos
        || l.find("Assertion") != std::string::npos
        || l.find("terminate called") != std::string::npos
        || l.find("what():") != std::string::npos) {
      if (found.size() < 600) found += (found.empty() ? "" : " | ") + l;
    }
    if (where.empty() && l.find("CoMMA/") != std::string::npos
        && l.find('#') != std::string::npos)
      where = l;
  }
  return found + (where.empty() ? "" : " @ " + where);
}

[[noreturn]] void worker(int w, int W, long N, Slot *sl, double deadline) {
  redirect(dir + "/w" + std::to_string(w) + ".err");
  std::map<std::string, long> labels;
  FILE *hf = fopen((dir + "/w" + std::to_string(w) + ".hash").c_str(), "wb");
  std::vector<std::string> samples;
  for (long i = w; i < N; i += W) {
    if (now() > deadline) break;
    sl->cpu0 = my_cpu();
    sl->cur = i;
    Src src(case_seed(seed, i));
    Case c(src, tier);
    c.want_desc = samples.size() < 2;
    std::string msg;
    const bool ok = run_one(src, c, msg, i >= n_ordinary);
    if (!ok) {
      snprintf(sl->msg, sizeof sl->msg, "%s", msg.c_str());
      sl->fail_case = i;
      break;
    }
    sl->done = sl->done + 1;
    for (auto &l : c.labels) ++labels[l];
    if (c.nontrivial) {
      sl->nontrivial = sl->nontrivial + 1;
      const uint64_t h = hash_vec(src.rec);
      fwrite(&h, sizeof h, 1, hf);
      if (samples.size() < 2 && !c.desc.empty()) samples.push_back(c.desc);
    }
  }
  fclose(hf);
  std::ofstream o(dir + "/w" + std::to_string(w) + ".stat");
  for (auto &[k, v] : labels) o << "L\t" << k << "\t" << v << "\n";
  for (auto &s : samples) o << "S\t" << s << "\n";
  o.close();
  sl->finished = 1;
  _exit(0);
}

enum Kind { OK = 0, FAIL, CRASH, TIMEOUT };
struct Res {
  Kind kind = OK;
  std::string msg, desc;
  std::vector<uint64_t> rec;
};

void write_all(int fd, const void *p, size_t n) {
  const char *q = static_cast<const char *>(p);
  while (n > 0) {
    ssize_t k = write(fd, q, n);
    if (k <= 0) return;
    q += k;
    n -= k;
  }
}

uint64_t *shared_rec = nullptr;
char *shared_desc = nullptr;

// Runs a case in a forked child.  Exactly one of choices/bytes/gen is used.
Res try_case(
  const std::vector<uint64_t> *choices,
  const std::string *bytes,
  const long *gen,
  bool want_desc
) {
  Res r;
  shared_rec[0] = 0;
  shared_desc[0] = 0;
  const bool huge = PROPERTY.huge > 0
    && (gen ? *gen >= n_ordinary
            : choices && !choices->empty() && choices->front() == 1);
  int fd[2];
  if (pipe(fd) != 0) _exit(3);
  const std::string err = dir + "/try.err";
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    redirect(err);
    mirror = shared_rec;
    desc_mirror = shared_desc;
    Src src = choices ? Src(choices)
      : bytes
      ? Src(reinterpret_cast<const uint8_t *>(bytes->data()), bytes->size())
      : Src(case_seed(seed, *gen));
    Case c(src, tier);
    c.want_desc = want_desc;
    std::string msg;
    const bool ok = run_one(src, c, msg, huge);
    char k = ok ? 'O' : 'F';
    write_all(fd[1], &k, 1);
    auto put = [&](const std::string &s) {
      uint64_t n = s.size();
      write_all(fd[1], &n, 8);
      write_all(fd[1], s.data(), n);
    };
    put(msg);
    put(c.desc);
    uint64_t n = src.rec.size();
    write_all(fd[1], &n, 8);
    write_all(fd[1], src.rec.data(), 8 * n);
    _exit(0);
  }
  close(fd[1]);
  std::string buf;
  bool timeout = false;
  char tmp[65536];
  while (true) {
    pollfd p{fd[0], POLLIN, 0};
    int k = poll(&p, 1, 500);
    if (k > 0) {
      ssize_t n = read(fd[0], tmp, sizeof tmp);
      if (n <= 0) break;
      buf.append(tmp, n);
    } else if (cpu_of(pid) > cpu_limit(huge)) {
      kill(pid, SIGKILL);
      timeout = true;
      break;
    }
  }
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (timeout) {
    r.kind = TIMEOUT;
    r.msg = huge ? "no result after 100 s of CPU time (normally some 10 s)"
                 : "no result after 40 s of CPU time (cases normally take "
                   "milliseconds)";
  } else if (buf.empty() || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
    r.kind = CRASH;
    r.msg = "crash: " + crash_summary(err);
    if (WIFSIGNALED(st))
      r.msg += " [signal " + std::to_string(WTERMSIG(st)) + "]";
  } else {
    r.kind = buf[0] == 'O' ? OK : FAIL;
    size_t p = 1;
    auto u64 = [&]() {
      uint64_t v = 0;
      memcpy(&v, buf.data() + p, 8);
      p += 8;
      return v;
    };
    auto n = u64();
    r.msg = buf.substr(p, n);
    p += n;
    n = u64();
    r.desc = buf.substr(p, n);
    p += n;
    n = u64();
    r.rec.resize(n);
    memcpy(r.rec.data(), buf.data() + p, 8 * n);
  }
  if (r.kind == CRASH || r.kind == TIMEOUT) {
    r.desc = shared_desc;
    r.rec.assign(shared_rec + 1, shared_rec + 1 + shared_rec[0]);
  }
  return r;
}

// Runs the cases first, first + step, ..., last one after the other; stops at
// the first that fails.  Returns whether one did.
bool run_sequence(long first, long step, long last, std::string &msg) {
  for (long i = first; i <= last; i += step) {
    Src src(case_seed(seed, i));
    Case c(src, tier);
    if (!run_one(src, c, msg, i >= n_ordinary)) {
      msg = "case " + std::to_string(i) + ": " + msg;
      return true;
    }
  }
  return false;
}

// The same in a forked child; a crash or a hang is a failure too
bool try_sequence(long first, long step, long last, std::string &msg) {
  const std::string err = dir + "/try.err";
  shared_desc[0] = 0;
  pid_t pid = fork();
  if (pid == 0) {
    redirect(err);
    std::string m;
    const bool bad = run_sequence(first, step, last, m);
    snprintf(shared_desc, DESC_CAP, "%s", m.c_str());
    _exit(bad ? 1 : 0);
  }
  int st = 0;
  while (waitpid(pid, &st, WNOHANG) == 0) {
    if (cpu_of(pid) > SEQUENCE_CPU_LIMIT) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      return false;  // too long to tell
    }
    usleep(5000);
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
  msg = WIFEXITED(st) && WEXITSTATUS(st) == 1 ? shared_desc
                                              : "crash: " + crash_summary(err);
  return true;
}

bool shortlex_less(
  const std::vector<uint64_t> &a, const std::vector<uint64_t> &b
) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

struct Shrinker {
  std::vector<uint64_t> best;
  Res best_res;
  int tries = 0;
  double t_end;
  int max_tries = 4000;
  bool attempt(std::vector<uint64_t> cand) {
    while (!cand.empty() && cand.back() == 0) cand.pop_back();
    if (!shortlex_less(cand, best)) return false;
    if (tries >= max_tries || now() > t_end) return false;
    ++tries;
    Res r = try_case(&cand, nullptr, nullptr, false);
    if (r.kind == OK || r.kind != best_res.kind) return false;
    auto rec = r.rec;
    while (!rec.empty() && rec.back() == 0) rec.pop_back();
    if (shortlex_less(rec, cand)) cand = rec;
    best = cand;
    best_res = r;
    return true;
  }
  bool budget() const { return tries < max_tries && now() < t_end; }
  void run() {
    // Find a good prefix first (sequences of crashing cases are too long)
    {
      size_t lo = 0, hi = best.size();
      while (lo < hi && budget()) {
        size_t mid = (lo + hi) / 2;
        std::vector<uint64_t> c(best.begin(), best.begin() + std::min(mid, best.size()));
        if (attempt(c)) {
          hi = std::min(mid, best.size());
        } else {
          lo = mid + 1;
        }
      }
    }
    bool changed = true;
    while (changed && budget()) {
      changed = false;
      // delete chunks
      for (size_t len : {size_t(64), size_t(32), size_t(16), size_t(8), size_t(4), size_t(3), size_t(2), size_t(1)}) {
        for (size_t i = best.size(); i-- > 0 && budget();) {
          if (i + len > best.size()) continue;
          auto c = best;
          c.erase(c.begin() + i, c.begin() + i + len);
          if (attempt(c)) changed = true;
          // deletion plus lowering a counter just before
          if (i > 0 && i - 1 < best.size() && best[i - 1] > 0
              && i + len <= best.size()) {
            auto d = best;
            d.erase(d.begin() + i, d.begin() + i + len);
            d[i - 1] -= 1;
            if (attempt(d)) changed = true;
          }
        }
      }
      // zero chunks
      for (size_t len : {size_t(16), size_t(8), size_t(4), size_t(2)}) {
        for (size_t i = 0; i + len <= best.size() && budget(); ++i) {
          auto c = best;
          bool any = false;
          for (size_t k = i; k < i + len; ++k) {
            any = any || c[k] != 0;
            c[k] = 0;
          }
          if (any && attempt(c)) changed = true;
        }
      }
      // lower single values
      for (size_t i = 0; i < best.size() && budget(); ++i) {
        for (int pass = 0; pass < 3 && i < best.size(); ++pass) {
          if (best[i] == 0) break;
          auto c = best;
          c[i] = pass == 0 ? 0 : pass == 1 ? c[i] / 2 : c[i] - 1;
          if (attempt(c)) {
            changed = true;
            pass = -1;
          }
        }
      }
    }
  }
};

std::string esc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n')
      o += "\\n";
    else if (c < 32)
      o += ' ';
    else
      o += c;
  }
  return o;
}

}  // namespace

int main(int argc, char **argv) {
  std::string replay, bytes_file, replay_out;
  long N = -1;
  int W = 8;
  double limit = 400;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--tier") {
      tier_name = val();
      tier = tier_name == "thorough";
    } else if (a == "--seed")
      seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--dir")
      dir = val();
    else if (a == "--replay")
      replay = val();
    else if (a == "--bytes")
      bytes_file = val();
    else if (a == "--replay-out")
      replay_out = val();
    else if (a == "--cases")
      N = atol(val().c_str());
    else if (a == "--workers")
      W = atoi(val().c_str());
    else if (a == "--limit")
      limit = atof(val().c_str());
  }
  if (N < 0) N = tier ? PROPERTY.thorough : PROPERTY.quick;
  n_ordinary = N;
  if (!replay.empty()) {
    std::ifstream f(replay);
    std::string l;
    std::vector<uint64_t> ch;
    long first = 0, step = 0, last = -1;
    while (std::getline(f, l)) {
      if (l.rfind("seed: ", 0) == 0) seed = strtoull(l.c_str() + 6, nullptr, 10);
      if (l.rfind("sequence: ", 0) == 0)
        std::istringstream(l.substr(10)) >> first >> step >> last;
      if (l.rfind("tier: thorough", 0) == 0) {
        tier = 1;
        n_ordinary = PROPERTY.thorough;
      }
      if (l.rfind("choices:", 0) == 0) {
        std::istringstream is(l.substr(8));
        uint64_t v;
        while (is >> v) ch.push_back(v);
      }
    }
    if (step > 0) {
      std::string m;
      const bool bad = run_sequence(first, step, last, m);
      std::cerr << (bad ? "FAILED: " + m : "HELD") << "\n";
      return bad ? 1 : 0;
    }
    Src src(&ch);
    Case c(src, tier);
    c.want_desc = true;
    std::string msg;
    const bool ok = run_one(src, c, msg);
    std::cerr << (ok ? "HELD" : "FAILED: " + msg) << "\ncase: " << c.desc << "\n";
    return ok ? 0 : 1;
  }
  N += PROPERTY.huge * (tier ? 4 : 1);
  const double t0 = now();
  Slot *slots = static_cast<Slot *>(mmap(
    nullptr, sizeof(Slot) * 64, PROT_READ | PROT_WRITE,
    MAP_SHARED | MAP_ANONYMOUS, -1, 0
  ));
  shared_rec = static_cast<uint64_t *>(mmap(
    nullptr, sizeof(uint64_t) * MIRROR_CAP, PROT_READ | PROT_WRITE,
    MAP_SHARED | MAP_ANONYMOUS, -1, 0
  ));
  shared_desc = static_cast<char *>(mmap(
    nullptr, DESC_CAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0
  ));
  Res failure;
  std::vector<uint64_t> fail_choices;
  long fail_case = -1, seq_first = -1;
  bool have_fail = false;
  std::vector<std::string> notes;

  auto confirm = [&](std::vector<uint64_t> ch) {
    int n = 0;
    for (int k = 0; k < 3; ++k) {
      // once is enough (and long) for a huge mesh
      if (k > 0 && failure.kind == TIMEOUT && PROPERTY.huge > 0 && ch[0] == 1) {
        ++n;
        continue;
      }
      Res r = try_case(&ch, nullptr, nullptr, false);
      if (r.kind != OK) ++n;
    }
    return n;
  };

  if (!bytes_file.empty()) {
    std::ifstream f(bytes_file, std::ios::binary);
    std::string b((std::istreambuf_iterator<char>(f)), {});
    Res r = try_case(nullptr, &b, nullptr, false);
    if (r.kind != OK) {
      have_fail = true;
      failure = r;
      fail_choices = r.rec;
      if (confirm(fail_choices) < 3) {
        have_fail = false;
        notes.push_back("byte input did not reproduce as choice sequence");
      }
    }
    N = 0;
  } else {
    std::vector<pid_t> pids(W);
    std::vector<bool> alive(W, true);
    for (int w = 0; w < W; ++w) {
      memset(static_cast<void *>(&slots[w]), 0, sizeof(Slot));
      slots[w].fail_case = -1;
      slots[w].cur = -1;
    }
    for (int w = 0; w < W; ++w) {
      pids[w] = fork();
      if (pids[w] == 0) worker(w, W, N, &slots[w], t0 + limit);
    }
    int n_alive = W;
    std::vector<std::pair<long, std::string>> bad;
    while (n_alive > 0) {
      for (int w = 0; w < W; ++w) {
        if (!alive[w]) continue;
        int st;
        pid_t p = waitpid(pids[w], &st, WNOHANG);
        if (p == pids[w]) {
          alive[w] = false;
          --n_alive;
          if (slots[w].fail_case >= 0)
            bad.emplace_back(slots[w].fail_case, slots[w].msg);
          else if (!WIFEXITED(st) || WEXITSTATUS(st) != 0
                   || !slots[w].finished)
            bad.emplace_back(slots[w].cur, "crash");
        } else if (slots[w].cur >= 0
                   && cpu_of(pids[w]) - slots[w].cpu0 > cpu_limit(slots[w].cur >= n_ordinary)) {
          kill(pids[w], SIGKILL);
          waitpid(pids[w], &st, 0);
          alive[w] = false;
          --n_alive;
          bad.emplace_back(slots[w].cur, "timeout");
        }
      }
      if (!bad.empty()) break;
      usleep(20000);
    }
    if (!bad.empty()) {
      // let the others finish their case, then stop them
      for (int w = 0; w < W; ++w)
        if (alive[w]) {
          kill(pids[w], SIGKILL);
          int st;
          waitpid(pids[w], &st, 0);
        }
      std::sort(bad.begin(), bad.end());
      for (auto &[i, m] : bad) {
        Res r = try_case(nullptr, nullptr, &i, false);
        if (r.kind == OK) {
          notes.push_back(
            "case " + std::to_string(i) + " failed once (" + m
            + ") but held when run alone"
          );
          continue;
        }
        fail_case = i;
        failure = r;
        fail_choices = r.rec;
        if (confirm(fail_choices) == 3) {
          have_fail = true;
          break;
        }
        notes.push_back("case " + std::to_string(i) + " did not reproduce");
      }
      // A case that fails only after others: state kept between calls
      for (auto &[i, m] : bad) {
        if (have_fail) break;
        for (long len = 2; !have_fail; len *= 2) {
          const long first = std::max<long>(i % W, i - (len - 1) * W);
          std::string msg;
          bool again = true;
          for (int k = 0; k < 3 && again; ++k)
            again = try_sequence(first, W, i, msg);
          if (again) {
            have_fail = true;
            fail_case = i;
            seq_first = first;
            failure.msg = "after the cases before it: " + msg;
            failure.desc = "cases " + std::to_string(first) + " to "
              + std::to_string(i) + " in steps of " + std::to_string(W);
          }
          if (first == i % W) break;
        }
      }
    }
  }
  long done = 0, nontriv = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, long> labels;
  std::vector<std::string> samples;
  if (bytes_file.empty())
    for (int w = 0; w < W; ++w) {
      done += slots[w].done;
      nontriv += slots[w].nontrivial;
      std::ifstream hf(dir + "/w" + std::to_string(w) + ".hash", std::ios::binary);
      uint64_t h;
      while (hf.read(reinterpret_cast<char *>(&h), 8)) distinct.insert(h);
      std::ifstream sf(dir + "/w" + std::to_string(w) + ".stat");
      std::string l;
      while (std::getline(sf, l)) {
        if (l.rfind("L\t", 0) == 0) {
          auto t = l.rfind('\t');
          labels[l.substr(2, t - 2)] += atol(l.c_str() + t + 1);
        } else if (l.rfind("S\t", 0) == 0 && samples.size() < 4)
          samples.push_back(l.substr(2));
      }
    }
  std::string replay_path;
  if (have_fail && seq_first >= 0) {
    replay_path = replay_out;
    std::ofstream o(replay_path);
    o << "property: " << PROPERTY.id << "\n";
    o << "tier: " << tier_name << "\n";
    o << "seed: " << seed << " case: " << fail_case << "\n";
    o << "failure: " << failure.msg << "\n";
    o << "sequence: " << seq_first << " " << W << " " << fail_case << "\n";
  } else if (have_fail) {
    Shrinker sh;
    sh.best = fail_choices;
    while (!sh.best.empty() && sh.best.back() == 0) sh.best.pop_back();
    sh.best_res = failure;
    sh.t_end = now() + (failure.kind == TIMEOUT ? 80 : 60);
    sh.run();
    Res fin = try_case(&sh.best, nullptr, nullptr, true);
    if (fin.kind == OK) {  // should not happen: fall back
      sh.best = fail_choices;
      fin = try_case(&sh.best, nullptr, nullptr, true);
    }
    replay_path = replay_out;
    std::ofstream o(replay_path);
    o << "property: " << PROPERTY.id << "\n";
    o << "tier: " << tier_name << "\n";
    o << "seed: " << seed << " case: " << fail_case << "\n";
    o << "failure: " << fin.msg << "\n";
    o << "case-written-out: " << fin.desc << "\n";
    o << "shrink-tries: " << sh.tries << "\n";
    o << "choices:";
    for (auto v : sh.best) o << ' ' << v;
    o << "\n";
    failure.msg = fin.msg;
    failure.desc = fin.desc;
  }
  std::ofstream o(dir + "/result.json");
  o << "{\"evaluations\": " << done << ", \"nontrivial\": " << nontriv
    << ", \"distinct_nontrivial\": " << distinct.size() << ", \"planned\": " << N
    << ",\n \"rule\": \"" << esc(PROPERTY.rule) << "\",\n \"labels\": {";
  bool first = true;
  for (auto &[k, v] : labels) {
    o << (first ? "" : ", ") << "\"" << esc(k) << "\": " << v;
    first = false;
  }
  o << "},\n \"samples\": [";
  for (size_t i = 0; i < samples.size(); ++i)
    o << (i ? ", " : "") << "\"" << esc(samples[i]) << "\"";
  o << "],\n \"notes\": [";
  for (size_t i = 0; i < notes.size(); ++i)
    o << (i ? ", " : "") << "\"" << esc(notes[i]) << "\"";
  o << "],\n \"failed\": " << (have_fail ? "true" : "false") << ", \"failure\": \""
    << esc(failure.msg) << "\", \"failure_case\": \"" << esc(failure.desc)
    << "\", \"replay\": \"" << esc(replay_path) << "\", \"wall_s\": "
    << now() - t0 << "}\n";
  return have_fail ? 1 : 0;
}
