// Small property-based testing engine.
//
// A test case is a sequence of integer choices.  In generation mode they are
// drawn from an RNG seeded with (VERIF_SEED, property, case index); in replay
// mode they come from a recorded sequence (missing ones are 0, too large ones
// are reduced).  Generators turn choices into meshes and arguments, with 0
// always meaning "the simplest option", so that shrinking the choice sequence
// shrinks the case.
#pragma once
#include <cstdint>
#include <cstdio>
#include <initializer_list>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

struct Fail {
  std::string msg;
};

inline uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

// When set, choices are mirrored there as they are made ([0] is their number),
// so that those of a case that crashes are known.
constexpr uint64_t MIRROR_CAP = 1 << 18;
inline uint64_t *mirror = nullptr;
constexpr size_t DESC_CAP = 1 << 16;
inline char *desc_mirror = nullptr;

class Src {
public:
  explicit Src(uint64_t seed) : _mode(0), _rng(seed) {}
  explicit Src(const std::vector<uint64_t> *choices) : _mode(1), _in(choices) {}
  Src(const uint8_t *data, size_t size) : _mode(2), _data(data), _size(size) {}

  // uniform in [0, n)
  uint64_t draw(uint64_t n) {
    uint64_t v = 0;
    if (n > 1) {
      switch (_mode) {
        case 0:
          v = splitmix(_rng) % n;
          break;
        case 1:
          v = _pos < _in->size() ? (*_in)[_pos] : 0;
          if (v >= n) v %= n;
          ++_pos;
          break;
        default: {
          const int nb = n <= 256 ? 1 : (n <= 65536 ? 2 : 4);
          for (int i = 0; i < nb; ++i) {
            v = (v << 8) | (_pos < _size ? _data[_pos] : 0);
            ++_pos;
          }
          v %= n;
        }
      }
    }
    if (n > 1) {
      rec.push_back(v);
      if (mirror && rec.size() < MIRROR_CAP) {
        mirror[rec.size()] = v;
        mirror[0] = rec.size();
      }
    }
    return v;
  }
  // lo is the simplest value
  long range(long lo, long hi) {
    return lo + static_cast<long>(draw(static_cast<uint64_t>(hi - lo + 1)));
  }
  // true with probability num/den; false is the simplest
  bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
  bool coin() { return draw(2) == 1; }
  // a choice made by the engine rather than drawn
  bool flag(bool value) {
    if (_mode == 0) {
      rec.push_back(value);
      if (mirror) mirror[mirror[0] = rec.size()] = value;
      return value;
    }
    return _mode == 1 && draw(2) == 1;
  }
  template<typename T>
  T pick(std::initializer_list<T> l) {
    return *(l.begin() + draw(l.size()));
  }
  template<typename T>
  const T &pick(const std::vector<T> &l) {
    return l[draw(l.size())];
  }
  template<typename T>
  void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; --i) {
      const size_t j = i - 1 - draw(i);
      std::swap(v[i - 1], v[j]);
    }
  }
  std::vector<uint64_t> rec;

private:
  int _mode;
  uint64_t _rng = 0;
  const std::vector<uint64_t> *_in = nullptr;
  const uint8_t *_data = nullptr;
  size_t _size = 0;
  size_t _pos = 0;
};

// One running case: source of choices, classification and description.
class Case {
public:
  explicit Case(Src &src, int tier_) : s(src), tier(tier_) {}
  Src &s;
  int tier;  // 0 quick, 1 thorough
  bool huge = false;  // mesh of tens of thousands of cells
  bool nontrivial = false;
  bool want_desc = false;
  std::vector<std::string> labels;
  std::string desc;
  void say(const std::string &t) {
    if (!want_desc) return;
    desc += t;
    if (desc_mirror) snprintf(desc_mirror, DESC_CAP, "%s", desc.c_str());
  }
  void label(const std::string &l) { labels.push_back(l); }
  void label_if(bool c, const char *l) {
    if (c) labels.push_back(l);
  }
  [[noreturn]] void fail(const std::string &m) { throw Fail{m}; }
  void check(bool ok, const std::string &m) {
    if (!ok) throw Fail{m};
  }
};

struct Property {
  const char *id;
  const char *rule;  // how cases are made and what makes one non-trivial
  void (*run)(Case &);
  long quick;  // number of cases, quick tier
  long thorough;  // number of cases, thorough tier
  long huge = 0;  // number of further cases with huge meshes, quick tier
};

// Defined by each property file
extern const Property PROPERTY;

template<typename T>
std::string show(const std::vector<T> &v) {
  std::ostringstream o;
  o.precision(17);
  o << '[';
  for (size_t i = 0; i < v.size(); ++i) {
    if (i) o << ' ';
    if (i == 3000) {
      o << "... " << v.size() << " in total";
      break;
    }
    o << v[i];
  }
  o << ']';
  return o.str();
}

}  // namespace pbt

#define PBT_CHECK(c, cond, ...)                \
  do {                                         \
    if (!(cond)) {                             \
      std::ostringstream pbt_os;               \
      pbt_os.precision(17);                    \
      pbt_os << __VA_ARGS__;                   \
      (c).fail(pbt_os.str());                  \
    }                                          \
  } while (0)
