// C24: the Python module gives the results of the C++ library
//@source src/CoMMA.cpp
//@cflags -I/usr/include/python3.12 -fvisibility=default
//@ldflags -lpython3.12
#include "common.h"

#include <pybind11/embed.h>
#include <pybind11/stl.h>
using namespace pbt;
namespace py = pybind11;

extern "C" PyObject *PyInit_CoMMA();

namespace {
py::module_ &module() {
  static py::module_ *mod = [] {
    PyImport_AppendInittab("CoMMA", &PyInit_CoMMA);
    PyConfig config;
    PyConfig_InitIsolatedConfig(&config);
    config.site_import = 0;
    config.write_bytecode = 0;
    if (PyStatus_Exception(Py_InitializeFromConfig(&config)))
      throw std::runtime_error("cannot start Python");
    PyConfig_Clear(&config);
    return new py::module_(py::module_::import("CoMMA"));
  }();
  return *mod;
}

// list or tuple
template<typename T>
py::object seq(Src &s, const std::vector<T> &v) {
  if (s.chance(1, 6)) return py::tuple(py::cast(v));
  return py::cast(v);
}
template<typename T>
py::object seq(Src &s, const std::vector<std::vector<T>> &v) {
  py::list l;
  for (auto &x : v) l.append(seq(s, x));
  return std::move(l);
}

struct EnumItem {
  const char *type, *name;
  int value;
};
#define IT(T, N, V) {T, N, static_cast<int>(comma::V)}
const EnumItem ENUMS[] = {
  IT("Neighbourhood", "EXTENDED", CoMMANeighbourhoodT::EXTENDED),
  IT("Neighbourhood", "PURE_FRONT", CoMMANeighbourhoodT::PURE_FRONT),
  IT("SeedsPool", "BOUNDARY", CoMMASeedsPoolT::BOUNDARY_PRIORITY),
  IT("SeedsPool", "NEIGHBOURHOOD", CoMMASeedsPoolT::NEIGHBOURHOOD_PRIORITY),
  IT(
    "SeedsPool", "BOUNDARY_POINT_INIT",
    CoMMASeedsPoolT::BOUNDARY_PRIORITY_ONE_POINT_INIT
  ),
  IT(
    "SeedsPool", "NEIGHBOURHOOD_POINT_INIT",
    CoMMASeedsPoolT::NEIGHBOURHOOD_PRIORITY_ONE_POINT_INIT
  ),
  IT("AR", "DIAMETER_OVER_RADIUS", CoMMAAspectRatioT::DIAMETER_OVER_RADIUS),
  IT("AR", "DIAMETER_OVER_MIN_EDGE", CoMMAAspectRatioT::DIAMETER_OVER_MIN_EDGE),
  IT("AR", "DIAMETER", CoMMAAspectRatioT::DIAMETER),
  IT("AR", "ONE_OVER_MEASURE", CoMMAAspectRatioT::ONE_OVER_MEASURE),
  IT(
    "AR", "ONE_OVER_INTERNAL_WEIGHTS",
    CoMMAAspectRatioT::ONE_OVER_INTERNAL_WEIGHTS
  ),
  IT("AR", "PERIMETER_OVER_RADIUS", CoMMAAspectRatioT::PERIMETER_OVER_RADIUS),
  IT("AR", "EXTERNAL_WEIGHTS", CoMMAAspectRatioT::EXTERNAL_WEIGHTS),
  IT(
    "AR", "MAX_BARY_DIST_OVER_RADIUS",
    CoMMAAspectRatioT::MAX_BARY_DIST_OVER_RADIUS
  ),
  IT("AR", "MAX_OVER_MIN_BARY_DIST", CoMMAAspectRatioT::MAX_OVER_MIN_BARY_DIST),
  IT(
    "AR", "ALGEBRAIC_PERIMETER_OVER_MEASURE",
    CoMMAAspectRatioT::ALGEBRAIC_PERIMETER_OVER_MEASURE
  ),
  IT("CellCoupling", "MAX_WEIGHT", CoMMACellCouplingT::MAX_WEIGHT),
  IT("CellCoupling", "MIN_DISTANCE", CoMMACellCouplingT::MIN_DISTANCE),
};
#undef IT

// an int or the enumerator of that value, from its class or from the module
py::object enum_or_int(Src &s, const char *type, int value) {
  const int how = static_cast<int>(s.draw(3));
  if (how)
    for (const auto &e : ENUMS)
      if (std::string(e.type) == type && e.value == value)
        return how == 1 ? module().attr(type).attr(e.name)
                        : py::object(module().attr(e.name));
  return py::int_(value);
}

struct Named {
  const char *name;
  py::object value;
  bool is_default;
};

// positional up to some argument, then by name in any order
py::object call(Case &c, const char *fun, std::vector<Named> args) {
  Src &s = c.s;
  size_t npos = s.coin() ? args.size() : s.draw(args.size() + 1);
  const bool omit = s.coin();
  if (omit)
    for (size_t i = 0; i < npos; ++i) {
      bool rest = true;  // trailing defaults
      for (size_t j = i; j < args.size(); ++j) rest &= args[j].is_default;
      if (rest) npos = i;
    }
  py::list pos;
  py::dict kw;
  std::vector<size_t> order;
  for (size_t i = 0; i < args.size(); ++i) {
    if (i < npos) pos.append(args[i].value);
    else if (!(omit && args[i].is_default)) order.push_back(i);
  }
  s.shuffle(order);
  for (auto i : order) kw[args[i].name] = args[i].value;
  c.say(
    " " + std::string(fun) + " with " + std::to_string(npos) + " positional, "
    + std::to_string(order.size()) + " named"
  );
  c.label_if(!order.empty(), "named arguments");
  c.label_if(npos + order.size() < args.size(), "defaults omitted");
  return module().attr(fun)(*py::tuple(pos), **kw);
}

void agglo(Case &c) {
  Src &s = c.s;
  GenOpts go;
  go.max_n = c.tier ? 60 : 30;
  go.stretched = s.chance(1, 2);
  Mesh m = gen_mesh(s, go);
  ArgOpts ao;
  Args a = gen_args(s, m, ao);
  if (s.chance(1, 3)) a.ar = 0;
  if (s.chance(1, 8)) {  // something to reject
    switch (s.draw(6)) {
    case 0: m.dim = 4; break;
    case 1: a.goal = a.max + 1; break;
    case 2: a.min = 1; break;
    case 3: a.fc_iter = 0; break;
    case 4: a.sing = 0; break;
    default: m.w.push_back(1.);
    }
  }
  c.say(describe(m) + describe(a));
  Out exp;
  std::string error;
  try {
    exp = agglomerate(m, a);
  } catch (const std::invalid_argument &e) {
    error = e.what();
  }
  const py::object lidx = seq(s, a.lidx), lines = seq(s, a.lines);
  const py::object row = seq(s, m.row), col = seq(s, m.col), w = seq(s, m.w),
                   vol = seq(s, m.vol), cen = seq(s, m.cen),
                   prio = seq(s, m.prio), comp = seq(s, a.compliant),
                   nb = seq(s, m.nbnd);
  std::vector<Named> args{
    {"adjMatrix_row_ptr", row, false},
    {"adjMatrix_col_ind", col, false},
    {"adjMatrix_areaValues", w, false},
    {"volumes", vol, false},
    {"centers", cen, false},
    {"priority_weights", prio, false},
    {"anisotropicCompliantCells", comp, false},
    {"n_bnd_faces", nb, false},
    {"build_anisotropic_lines", py::bool_(a.build_lines), false},
    {"is_anisotropic", py::bool_(a.is_aniso), false},
    {"odd_line_length", py::bool_(a.odd), false},
    {"threshold_anisotropy", py::float_(a.thr), false},
    {"seed_ordering_type", enum_or_int(s, "SeedsPool", a.pool), false},
    {"agglomerationLines_Idx", lidx, false},
    {"agglomerationLines", lines, false},
    {"correction", py::bool_(a.corr), false},
    {"dimension", py::int_(m.dim), false},
    {"goal_card", py::int_(a.goal), false},
    {"min_card", py::int_(a.min), false},
    {"max_card", py::int_(a.max), false},
    {"aspect_ratio", enum_or_int(s, "AR", a.ar), a.ar == 0},
    {"singular_card_thresh", py::int_(a.sing), a.sing == 1},
    {"max_cells_in_line",
     a.max_line ? py::object(py::int_(*a.max_line)) : py::object(py::none()),
     !a.max_line},
    {"aniso_cell_coupling", enum_or_int(s, "CellCoupling", a.coupling),
     a.coupling == 0},
    {"force_line_direction", py::bool_(a.force_dir), a.force_dir},
    {"fc_choice_iter", py::int_(a.fc_iter), a.fc_iter == 1},
    {"type_of_isotropic_agglomeration",
     enum_or_int(s, "Neighbourhood", a.nbh), a.nbh == 0},
  };
  py::object r;
  bool raised = false;
  try {
    r = call(c, "agglomerate_one_level", args);
  } catch (py::error_already_set &e) {
    raised = true;
    const bool value = e.matches(PyExc_ValueError);
    const std::string text = e.what();
    PBT_CHECK(
      c, !error.empty() && value,
      "Python raised " << text << " where C++ "
                       << (error.empty() ? "returned" : "rejected")
    );
    PBT_CHECK(
      c, text.find(error) != std::string::npos,
      "Python says \"" << text << "\", C++ \"" << error << "\""
    );
  }
  PBT_CHECK(c, raised || error.empty(), "Python accepted what C++ rejects");
  PBT_CHECK(
    c,
    lidx.cast<std::vector<Idx>>() == a.lidx
      && lines.cast<std::vector<Idx>>() == a.lines
      && row.cast<std::vector<Idx>>() == m.row
      && col.cast<std::vector<Idx>>() == m.col
      && w.cast<std::vector<Real>>() == m.w
      && vol.cast<std::vector<Real>>() == m.vol
      && prio.cast<std::vector<Real>>() == m.prio
      && comp.cast<std::vector<Idx>>() == a.compliant
      && nb.cast<std::vector<Int>>() == m.nbnd,
    "a sequence given as argument was modified"
  );
  if (raised) {
    c.nontrivial = true;
    c.label("rejected");
    return;
  }
  const auto [f2c, li, l] =
    r.cast<std::tuple<std::vector<Idx>, std::vector<Idx>, std::vector<Idx>>>();
  PBT_CHECK(
    c, f2c == exp.f2c, "fine to coarse " << show(f2c) << " instead of " << show(exp.f2c)
  );
  PBT_CHECK(
    c, li == exp.lidx && l == exp.lines,
    "lines " << show(li) << " " << show(l) << " instead of " << show(exp.lidx)
             << " " << show(exp.lines)
  );
  c.nontrivial = exp.n_cc() > 1;
  c.label("agglomeration");
  c.label_if(a.is_aniso, "anisotropic");
}

void helpers(Case &c) {
  Src &s = c.s;
  GenOpts go;
  go.max_n = c.tier ? 60 : 30;
  const Mesh m = gen_mesh(s, go);
  const size_t n = m.n();
  switch (s.draw(3)) {
  case 0: {
    std::vector<Idx> wall;
    for (size_t i = 0; i < n; ++i)
      if (s.chance(1, 6)) wall.push_back(i);
    c.say(describe(m) + " wall " + show(wall));
    std::vector<long> exp;
    comma::compute_neighbourhood_based_wall_distance<Idx, long>(
      m.row, m.col, wall, exp
    );
    const auto got = call(
                       c, "compute_neighbourhood_based_wall_distance",
                       {{"neigh_idxs", seq(s, m.row), false},
                        {"neighs", seq(s, m.col), false},
                        {"wall", seq(s, wall), false}}
    )
                       .cast<std::vector<long>>();
    PBT_CHECK(c, got == exp, "distances " << show(got) << " instead of " << show(exp));
    c.label("wall distance");
    c.nontrivial = !wall.empty() && wall.size() < n;
    break;
  }
  case 1: {
    std::unordered_set<Int> allowed;
    py::set al;
    for (int i = 0; i < 8; ++i)
      if (s.coin()) {
        allowed.insert(i);
        al.add(i);
      }
    c.say(describe(m));
    std::vector<Idx> exp;
    comma::filter_cells_by_n_edges<Idx, Int>(m.row, m.nbnd, allowed, exp);
    const auto got = call(
                       c, "filter_cells_by_n_edges",
                       {{"indices", seq(s, m.row), false},
                        {"n_bnd_face", seq(s, m.nbnd), false},
                        {"allowed", al, false}}
    )
                       .cast<std::vector<Idx>>();
    PBT_CHECK(c, got == exp, "cells " << show(got) << " instead of " << show(exp));
    c.label("filter");
    c.nontrivial = !exp.empty() && exp.size() < n;
    break;
  }
  default: {
    std::vector<Idx> f2c(n);
    const Idx k = 1 + s.draw(n);
    for (size_t i = 0; i < n; ++i) f2c[i] = i < k ? i : s.draw(k);
    s.shuffle(f2c);
    c.say(describe(m) + " map " + show(f2c));
    std::vector<Idx> r, cc;
    std::vector<Real> w, v, p;
    std::vector<std::vector<Real>> x;
    std::vector<Int> b;
    comma::build_coarse_graph<Idx, Real, Int>(
      f2c, m.row, m.col, m.w, m.vol, m.cen, m.prio, m.nbnd, r, cc, w, v, x, p, b
    );
    const auto got = call(
                       c, "build_coarse_graph",
                       {{"f2c", seq(s, f2c), false},
                        {"f_adj_idx", seq(s, m.row), false},
                        {"f_adj", seq(s, m.col), false},
                        {"f_weights", seq(s, m.w), false},
                        {"f_volumes", seq(s, m.vol), false},
                        {"f_centers", seq(s, m.cen), false},
                        {"f_priority", seq(s, m.prio), false},
                        {"f_n_bnd", seq(s, m.nbnd), false}}
    )
                       .cast<py::tuple>();
    PBT_CHECK(c, got.size() == 7, "tuple of " << got.size());
    PBT_CHECK(c, got[0].cast<std::vector<Idx>>() == r, "coarse row pointers");
    PBT_CHECK(c, got[1].cast<std::vector<Idx>>() == cc, "coarse columns");
    PBT_CHECK(c, got[2].cast<std::vector<Real>>() == w, "coarse weights");
    PBT_CHECK(c, got[3].cast<std::vector<Real>>() == v, "coarse volumes");
    PBT_CHECK(
      c, got[4].cast<std::vector<std::vector<Real>>>() == x, "coarse centers"
    );
    PBT_CHECK(c, got[5].cast<std::vector<Real>>() == p, "coarse priorities");
    PBT_CHECK(c, got[6].cast<std::vector<Int>>() == b, "coarse boundary counts");
    c.label("coarse graph");
    c.nontrivial = k > 1;
  }
  }
}

void run(Case &c) {
  const auto &e = ENUMS[c.s.draw(sizeof ENUMS / sizeof *ENUMS)];
  const long v = py::int_(module().attr(e.type).attr(e.name)).cast<long>();
  const long g = py::int_(module().attr(e.name)).cast<long>();
  PBT_CHECK(
    c, v == e.value && g == e.value,
    e.type << "." << e.name << " is " << v << " (" << g
           << " in the module) instead of " << e.value
  );
  if (c.s.chance(1, 3)) helpers(c);
  else agglo(c);
}
}  // namespace

const Property pbt::PROPERTY{
  "C24",
  "random calls of the functions of the Python module, positional or named, "
  "with enumerators or numbers, defaults omitted or given, against the same "
  "C++ calls; non-trivial: two or more coarse cells, a rejected call, or a "
  "helper with a result that is neither empty nor everything",
  run, 25000, 200000};
