// false as an index selects nothing and is refused
#include "bad.hpp"
template <class T> void matrixFalse(Ctx &c) {
  Src &s = c.s;
  MV m = genMat(s, genDim(s, 6), genDim(s, 6), tyOf<T>(), SMALL);
  auto x = make<T>(m);
  Witness w(s);
  bool row = s.below(2);
  int k = (int)s.below(I_COUNT);
  IdxOpt o;
  o.needOne = true;
  bool no = false;
  c.nontrivial();
  withIndex(s, k, row ? m.nc : m.nr, o, [&](auto &&i, const Sel &sel) {
    std::string what = std::string(row ? "x(false, " : "x(") + sel.text + (row ? ")" : ", false)") + " of " + str(m);
    c.log([&](auto &o) { o << what; });
    c.label(ikindName(k));
    sexp r;
    r = etr::coca(5.0, 6.0);
    auto both = [&](auto &&f) {
      if (row)
        f(no, i);
      else
        f(i, no);
    };
    int form = (int)s.below(6);
    both([&](auto &a, auto &b) {
      switch (form) {
      case 0:
        mustThrow(c, [&]() { r = x(a, b); }, what);
        break;
      case 1:
        mustThrow(c, [&]() { r = etr::subset(x, a, b) + 1.0; }, what);
        break;
      case 2:
        mustThrow(c, [&]() { x(a, b) = T(1); }, what);
        break;
      case 3:
        mustThrow(c, [&]() { etr::subset(x, a, b) = etr::coca(T(1)); }, what);
        break;
      case 4:
        mustThrow(c, [&]() { r = etr::subset(x + T(0), a, b); }, what);
        break;
      default:
        mustThrow(c, [&]() { r = etr::subset(x, false, false); }, "x(false, false)");
      }
    });
    expectVec(c, r, vec({5, 6}), what + ": the assigned variable");
    usable(c, x, m, what);
    w.check(c);
  });
}
template <class T> void vectorFalse(Ctx &c) {
  Src &s = c.s;
  MV m = s.below(2) ? genMat(s, genDim(s, 6), genDim(s, 6), tyOf<T>(), SMALL) : genVec(s, genSize(s, 50), tyOf<T>(), SMALL);
  auto x = make<T>(m);
  Witness w(s);
  std::string what = "x(false) of " + str(m);
  c.log([&](auto &o) { o << what; });
  c.nontrivial();
  bool no = false;
  sexp r;
  r = etr::coca(5.0, 6.0);
  switch (s.below(6)) {
  case 0:
    mustThrow(c, [&]() { r = x(no); }, what);
    break;
  case 1:
    mustThrow(c, [&]() { r = etr::subset(x, false) + 1.0; }, what);
    break;
  case 2:
    mustThrow(c, [&]() { x(false) = T(1); }, what);
    break;
  case 3:
    mustThrow(c, [&]() { etr::subset(x, no) = x; }, what);
    break;
  case 4:
    mustThrow(c, [&]() { r = etr::subset(x + T(0), no); }, what);
    break;
  default:
    mustThrow(c, [&]() { r = etr::subset(etr::coca(1.0, 2.0), no); }, what);
  }
  expectVec(c, r, vec({5, 6}), what + ": the assigned variable");
  usable(c, x, m, what);
  w.check(c);
}
PBT_SUB("false matrix double", 0.2, matrixFalse<double>);
PBT_SUB("false matrix int", 0.1, matrixFalse<int>);
PBT_SUB("false double", 0.1, vectorFalse<double>);
PBT_SUB("false int", 0.1, vectorFalse<int>);
PBT_SUB("false bool", 0.1, vectorFalse<bool>);
