// length, isNA and isInf of calculations
#include "helper.inc"
template <int O> static void calc(Ctx &c) {
  Src &s = c.s;
  overflow() = false;
  MV a = genVec(s, genSize(s, 40), Ty::D, SMALL), b = genVec(s, genSize(s, 40), Ty::D, SMALL);
  for (double &q : a.v)
    if (s.chance(1, 2))
      q = special(s);
  for (double &q : b.v)
    if (s.chance(1, 3))
      q = special(s);
  auto x = make<double>(a);
  auto y = make<double>(b);
  MV r = apply2(O, a, b);
  MV na = mapTo(r, [](double q) { return q != q; });
  MV inf = mapTo(r, [](double q) { return std::fabs(q) > 1.7976931348623157e308; });
  c.log([&](auto &o) { o << str(a) << " " << opName(O) << " " << str(b); });
  c.nontrivial(r.size() > 1);
#define CALC(op)                                                                                   \
  {                                                                                                \
    c.require((size_t)etr::length(x op y) == r.size(), "length of a calculation");                 \
    expectVec(c, etr::isNA(x op y), na, "isNA of a calculation");                                  \
    expectVec(c, etr::isInf(x op y), inf, "isInf of a calculation");                               \
    MV q = apply2(O, a, scal(2.0));                                                                \
    expectVec(c, etr::isNA(x op 2.0), mapTo(q, [](double t) { return t != t; }), "isNA(x op 2)");  \
  }
  if constexpr (O == ADD)
    CALC(+)
  else if constexpr (O == SUB)
    CALC(-)
  else if constexpr (O == MUL)
    CALC(*)
  else
    CALC(/)
}
PBT_SUB("calc_add", 0.2, calc<ADD>);
PBT_SUB("calc_sub", 0.2, calc<SUB>);
PBT_SUB("calc_mul", 0.2, calc<MUL>);
PBT_SUB("calc_div", 0.2, calc<DIV>);
