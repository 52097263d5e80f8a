// C10: the isotropic stage is the documented greedy growth
#include "model.h"
using namespace pbt;

static void run(Case &c) {
  Src &s = c.s;
  GenOpts go;
  go.max_n = c.tier ? 100 : 50;
  go.huge = c.huge;
  const Mesh m = gen_mesh(s, go);
  ArgOpts ao;
  ao.allow_corr = false;
  ao.allow_iter = false;
  const Args a = gen_args(s, m, ao);
  c.say(describe(m) + describe(a));
  const Out o = agglomerate(m, a);
  c.say(describe(o));
  const auto ccs = cells_of(o);
  IsoModel model(m, a);
  size_t k = 0;
  try {
    if (aniso_active(a)) {
      const auto lines = a.build_lines ? build_lines_model(m, a)
                                       : split_lines(a.lidx, a.lines);
      size_t usable = 0;
      for (auto &l : lines) usable += l.size() > 1;
      if (usable) {
        const auto p = pair_lines_model(m, a, lines);
        k = p.ccs.size();
        // the anisotropic coarse cells themselves are the subject of C13, C14
        for (size_t i = 0; i < k; ++i) {
          auto x = p.ccs[i];
          std::sort(x.begin(), x.end());
          if (i >= ccs.size() || ccs[i] != x) {
            c.label("anisotropic stage differs from its model");
            return;
          }
        }
        model.start_after(p.ccs);
      } else {
        model.start();
      }
    } else {
      model.start();
    }
    for (size_t i = k; i < ccs.size(); ++i) {
      const auto e = model.step({ccs[i].begin(), ccs[i].end()});
      PBT_CHECK(c, e.empty(), "coarse cell " << i << " " << show(ccs[i]) << ": " << e);
    }
  } catch (const Abandon &ab) {
    c.label(ab.why);
    c.label("abandoned");
    return;
  }
  c.nontrivial = model.grown >= 2;
  c.label_if(k > 0, "after anisotropic coarse cells");
  c.label_if(model.ambiguous > 0, "near ties explored");
  c.label_if(model.ties > 0, "exact ties");
  c.label_if(model.taken_all > 0, "too few free cells");
  static const char *ars[] = {"AR0", "AR1", "AR2", "AR3", "AR4",
                              "AR5", "AR6", "AR7", "AR8", "AR9"};
  c.label(ars[a.ar]);
  std_labels(c, m, a, o);
}

const Property pbt::PROPERTY{
  "C10",
  "random mesh graph x random accepted arguments with single-step choice and "
  "no correction, also after an anisotropic stage; non-trivial: two or more "
  "coarse cells grown cell by cell with enough free cells, all choices decided "
  "by more than rounding or explored exhaustively",
  run, 60000, 500000, 8};
