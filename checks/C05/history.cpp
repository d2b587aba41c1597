#include "values.inc"
template <int MASK> static void history(Ctx &c) {
  Src &s = c.s;
  overflow() = false;
  World w;
  int steps = 2 + (int)s.below(18), done = 0;
  for (int k = 0; k < steps; k++) {
    int ia = MASK == 0 ? (int)s.below(7) : MASK == 1 ? (int)s.below(3) : 3 + (int)s.below(4);
    std::string t;
    w.visit(ia, [&](auto &a) { t = step(c, w, ia, a); });
    if (t.empty())
      continue;
    done++;
    c.log([&](auto &o) { o << t << "; "; });
    for (int j = 0; j < 7; j++)
      w.visit(j, [&](auto &v) {
        if (v.set)
          expectVec(c, v.x, v.m, std::string(vn[j]) + " after " + t);
      });
  }
  c.nontrivial(done >= 3);
  if (done >= 10)
    c.label("10 and more steps");
}
PBT_SUB_LEAK("history", 1, history<0>);
PBT_SUB_LEAK("history_numeric", 1, history<1>);
PBT_SUB_LEAK("history_int_bool", 0.7, history<2>);
