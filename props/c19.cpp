// C19: invalid arguments are rejected before anything is produced
#include "common.h"
using namespace pbt;

static void run(Case &c) {
  GenOpts go;
  go.max_n = 30;
  go.stretched = c.s.chance(1, 4);
  Mesh m = gen_mesh(c.s, go);
  ArgOpts ao;
  ao.allow_corr = true;
  Args a = gen_args(c.s, m, ao);
  Idx row_extra = 0;
  bool no_row = false, other = false, bad_ar = false;
  std::string what;
  const int k = static_cast<int>(c.s.draw(4));
  for (int i = 0; i < k; ++i) {
    switch (c.s.draw(13)) {
      case 0:
        m.dim = static_cast<int>(c.s.pick({1, 0, 4, -2, 5, 6, 23}));
        what += " dimension";
        break;
      case 1:
        (c.s.coin() ? a.min : c.s.coin() ? a.goal : a.max) =
          static_cast<int>(c.s.pick({1, 0, -1, -4}));
        what += " cardinality";
        break;
      case 2:
        a.goal = a.max + 1 + static_cast<int>(c.s.draw(3));
        what += " goal>max";
        break;
      case 3:
        a.min = a.goal + 1 + static_cast<int>(c.s.draw(3));
        what += " min>goal";
        break;
      case 4:
        a.fc_iter = static_cast<int>(c.s.pick({0, -1, 5, 6, -3, 12}));
        what += " look-ahead";
        break;
      case 5:
        no_row = true;
        what += " no rows";
        break;
      case 6:
        if (m.col.empty() || c.s.coin()) m.col.push_back(0);
        else m.col.pop_back();
        what += " columns";
        if (m.row.back() == m.col.size()) return;
        break;
      case 7:
        if (m.w.empty() || c.s.coin()) m.w.push_back(1.);
        else m.w.pop_back();
        what += " weights";
        if (m.row.back() == m.w.size()) return;
        break;
      case 8:
        m.col.push_back(0);
        m.w.push_back(1.);
        ++row_extra;
        what += " both sizes";
        if (m.row.back() == m.col.size() && m.row.back() == m.w.size()) return;
        break;
      case 9:
        a.is_aniso = true;
        a.build_lines = false;
        if (a.lidx.size() < 2 || a.lines.empty()) {
          a.lidx = {0, 1};
          a.lines = {0};
        }
        if (c.s.coin()) a.lidx.back() += 1 + c.s.draw(2);
        else a.lidx.back() -= 1;
        what += " lines";
        break;
      case 10:
        a.sing = -static_cast<int>(c.s.draw(3));
        what += " singular threshold";
        break;
      case 11:
        a.pool = static_cast<int>(c.s.pick({2, 3, 9, 12, -1, 100}));
        what += " pool";
        break;
      default:
        a.ar = static_cast<int>(c.s.pick({10, 11, -1, 100}));
        what += " aspect ratio";
        bad_ar = true;
    }
  }
  // mutations can undo one another: look at the final arguments
  const bool lines_used = a.is_aniso && !a.build_lines && a.lidx.size() >= 2
    && !a.lines.empty();
  other = !(m.dim == 2 || m.dim == 3) || a.min <= 1 || a.goal <= 1 || a.max <= 1
    || a.min > a.goal || a.goal > a.max || a.fc_iter < 1 || a.fc_iter > 4
    || no_row || m.row.back() != m.col.size() || m.row.back() != m.w.size()
    || a.sing <= 0 || !(a.pool == 0 || a.pool == 1 || a.pool == 10 || a.pool == 11)
    || (lines_used && a.lidx.back() != a.lines.size());
  c.say(describe(m) + describe(a) + " invalid:" + what);
  const bool invalid = other || bad_ar;
  std::vector<Idx> f2c{7, 7, 7}, lidx = a.lidx, lines = a.lines;
  if (!lines_used && !c.s.coin()) {
    lidx = {0, 5};
    lines = {9, 9};
    if (a.is_aniso && !a.build_lines) lines.clear();
  }
  const auto lidx0 = lidx, lines0 = lines;
  const std::vector<Idx> empty;
  bool thrown = false;
  try {
    raw_call<>(
      no_row ? empty : m.row, m.col, m.w, m.vol, m.cen, m.prio, m.nbnd, m.dim,
      a, f2c, lidx, lines
    );
  } catch (const std::invalid_argument &) {
    thrown = true;
  }
  PBT_CHECK(c, thrown || !invalid, "not rejected:" << what);
  PBT_CHECK(c, !thrown || invalid, "valid arguments were rejected");
  if (thrown) {
    PBT_CHECK(
      c, (f2c == std::vector<Idx>{7, 7, 7}),
      "rejected call changed the fine-to-coarse map to " << show(f2c)
    );
    if (other || !aniso_active(a))
      PBT_CHECK(
        c, lidx == lidx0 && lines == lines0,
        "rejected call changed the lines to " << show(lidx) << " "
                                              << show(lines)
      );
  } else {
    PBT_CHECK(c, f2c.size() == m.n(), "map of " << f2c.size() << " cells");
  }
  c.nontrivial = thrown;
  c.label_if(k == 1 && thrown, "one invalid argument");
  c.label_if(k > 1 && thrown, "several invalid arguments");
  if (k == 1 && thrown) c.label(what.substr(1));
  c.label_if(!thrown, "valid");
}

const Property pbt::PROPERTY{
  "C19",
  "random valid call with none to three arguments made invalid and filled "
  "outputs; non-trivial: the call has to be rejected",
  run, 60000, 600000};
