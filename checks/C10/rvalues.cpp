// invalid positions in calculations, results of functions and subsets
#include "bad.hpp"
template <int K> static void rvalue(Ctx &c) {
  Src &s = c.s;
  Witness w(s);
  bool matrix = s.chance(1, 2) && canBeMatrix(K);
  Shape sh = matrix ? matShape(genDim(s, 4), genDim(s, 4)) : vecShape(genSize(s, 60));
  operand<K>(s, sh, SMALL, [&](auto &x, const MV &m) {
    if (matrix && s.below(2)) {
      bool row = s.below(2);
      IdxOpt good, bad;
      good.needOne = true;
      good.maxLen = bad.maxLen = 4;
      bad.bad = badPos(s, row ? m.nr : m.nc, true);
      auto two = [&](auto &&i, const Sel &si) {
        auto three = [&](auto &&j, const Sel &sj) {
          std::string what = std::string(kindName(K)) + " " + str(m) + " (" + si.text + ", " + sj.text + ")";
          c.log([&](auto &o) { o << what; });
          c.label(row ? "row" : "column");
          c.nontrivial(true);
          mustThrow(c, [&]() { sexp r; r = etr::subset(std::move(x), i, j); }, what);
        };
        switch (s.below(3)) {
        case 0:
          index1<I_INT>(s, m.nc, row ? good : bad, three);
          break;
        case 1:
          index1<I_DBL>(s, m.nc, row ? good : bad, three);
          break;
        case 2:
          index1<I_VDBL>(s, m.nc, row ? good : bad, three);
          break;
        }
      };
      switch (s.below(3)) {
      case 0:
        index1<I_INT>(s, m.nr, row ? bad : good, two);
        break;
      case 1:
        index1<I_DBL>(s, m.nr, row ? bad : good, two);
        break;
      case 2:
        index1<I_VINT>(s, m.nr, row ? bad : good, two);
        break;
      }
    } else {
      const auto &kinds = posKinds();
      int k = kinds[s.below(kinds.size())];
      IdxOpt o;
      o.bad = badPos(s, m.size(), true);
      withIndex(s, k, m.size(), o, [&](auto &&i, const Sel &sel) {
        std::string what = std::string(kindName(K)) + " " + str(m) + " (" + sel.text + ")";
        c.log([&](auto &o) { o << what; });
        c.nontrivial(true);
        c.label(ikindName(k));
        if (s.below(2))
          mustThrow(c, [&]() { sexp r; r = etr::subset(std::move(x), i); }, what);
        else
          mustThrow(c, [&]() { sexp r; r = etr::subset(std::move(x), i) * 2.0; }, what);
      });
    }
  });
  w.check(c);
}
PBT_SUB("rvalue_coca", 0.5, rvalue<K_COCA>);
PBT_SUB("rvalue_colon", 0.5, rvalue<K_COLON>);
PBT_SUB("rvalue_calculation", 0.5, rvalue<K_BINOP>);
PBT_SUB("rvalue_unary", 0.5, rvalue<K_UNOP>);
PBT_SUB("rvalue_comparison", 0.5, rvalue<K_COMP>);
PBT_SUB("rvalue_subset", 0.5, rvalue<K_SUBSET>);

// variables without memory
template <class T> static void empty(Ctx &c) {
  Src &s = c.s;
  Witness w(s);
  etr::Vec<T> x;
  const auto &cx = x;
  int f = (int)s.below(9);
  int i = 1 + (int)s.below(4);
  c.log([&](auto &o) { o << "access " << f << " of a variable without memory, position " << i; });
  c.nontrivial(true);
  switch (f) {
  case 0:
    mustThrow(c, [&]() { volatile double d = etr::at(x, +i); (void)d; }, "at");
    break;
  case 1:
    mustThrow(c, [&]() { etr::at(x, (double)i) = T(1); }, "at");
    break;
  case 2:
    mustThrow(c, [&]() { x[i - 1] = T(1); }, "x[i] = 1");
    break;
  case 3:
    mustThrow(c, [&]() { volatile double d = cx[i - 1]; (void)d; }, "x[i]");
    break;
  case 4:
    mustThrow(c, [&]() { sexp r; r = etr::subset(x, +i); }, "x(i)");
    break;
  case 5:
    mustThrow(c, [&]() { etr::subset(x, +i) = T(1); }, "x(i) = 1");
    break;
  case 6:
    mustThrow(c, [&]() { etr::subset(x, +i, 1) = T(1); }, "x(i, 1) = 1");
    break;
  case 7:
    mustThrow(c, [&]() { etr::at(x, +i, 1) = T(1); }, "at(x, i, 1) = 1");
    break;
  case 8:
    mustThrow(c, [&]() { etr::dim(x); }, "dim(x)");
    break;
  }
  c.require(x.size() == 0, "still empty");
  x = T(1);
  expectVec(c, x, ref::vec({1}), "assignment afterwards");
  w.check(c);
}
PBT_SUB("empty_num", 0.1, empty<double>);
PBT_SUB("empty_int", 0.1, empty<int>);
PBT_SUB("empty_bool", 0.1, empty<bool>);
