// Helpers shared by the property files
#pragma once
#include "api.h"

namespace pbt {

// Whether the anisotropic stage is run at all
inline bool aniso_active(const Args &a) {
  return a.is_aniso
    && (a.build_lines || (a.lidx.size() >= 2 && !a.lines.empty()));
}
// Number of anisotropic coarse cells: they take the lowest IDs
inline size_t n_aniso(const Args &a, const Out &o) {
  return aniso_active(a) ? o.lines.size() : 0;
}
inline int sing_eff(const Args &a) {
  return a.sing >= a.min ? a.min - 1 : a.sing;
}
inline bool mesh_connected(const Mesh &m) {
  std::vector<Idx> all(m.n());
  for (Idx i = 0; i < m.n(); ++i) all[i] = i;
  return is_connected(m, all);
}
// (nb, prio, -ID) lexicographic comparison: is a better than b?
inline bool better(const Mesh &m, Idx a, Idx b) {
  if (m.nb(a) != m.nb(b)) return m.nb(a) > m.nb(b);
  if (m.prio[a] != m.prio[b]) return m.prio[a] > m.prio[b];
  return a < b;
}
inline void std_labels(Case &c, const Mesh &m, const Args &a, const Out &o) {
  c.label_if(a.corr, "correction");
  c.label_if(n_aniso(a, o) > 0, "anisotropic CCs");
  c.label_if(a.fc_iter > 1, "look-ahead");
  c.label_if(m.n() > 30, "n>30");
  c.label_if(m.dim == 3, "3D");
  c.label_if(m.family.find('+') != std::string::npos, "disconnected mesh");
}

// Calls f(x.member) if there is such a member: data members that no test of the
// library uses may be renamed without changing what it does
#define PBT_OPTIONAL_MEMBER(member)                                        \
  template<typename T, typename F>                                         \
  auto with##member(T &x, F f, int) -> decltype(void(x.member)) {          \
    f(x.member);                                                           \
  }                                                                        \
  template<typename T, typename F>                                         \
  void with##member(T &, F, long) {}
PBT_OPTIONAL_MEMBER(_s_fc)
PBT_OPTIONAL_MEMBER(_is_isotropic)
PBT_OPTIONAL_MEMBER(_compactness)

// Calls f(x) if that compiles (f says so by its return type); tells whether it
// does.  For functions that no test of the library uses, too.
template<typename T, typename F>
auto if_there(T &x, F f, int) -> decltype(f(x), bool()) {
  f(x);
  return true;
}
template<typename T, typename F>
bool if_there(T &, F, long) {
  return false;
}

}  // namespace pbt
