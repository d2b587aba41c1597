// a comparison is a constant factor: also of infinite and of nearly equal numbers
#include "etr_pch.hpp"
#include "etrgen.hpp"
using namespace gen;

template <int OP, class L, class R> static auto cmp(const L &l, const R &r) {
  if constexpr (OP == EQ)
    return l == r;
  else if constexpr (OP == NE)
    return l != r;
  else if constexpr (OP == LT)
    return l < r;
  else if constexpr (OP == LE)
    return l <= r;
  else if constexpr (OP == GT)
    return l > r;
  else
    return l >= r;
}
template <int OP> static void compare(Ctx &c) {
  Src &s = c.s;
  overflow() = false;
  size_t n = genSize(s, 40);
  MV a = genVec(s, n, Ty::D, NEAR), b = genVec(s, s.chance(1, 3) ? 1 : n, Ty::D, NEAR), z = genVec(s, n, Ty::D, SMALL);
  MV want = apply2(OP, a, b);
  if (overflow())
    return;
  c.log([&](auto &o) { o << "(" << str(a) << " " << opName(OP) << " " << str(b) << ") * " << str(z); });
  bool t = false, f = false;
  for (double v : want.v)
    (v ? t : f) = true;
  c.nontrivial(t && f);
  using AV = etr::AllVars<3, 1, 0, 0>;
  bool borrowed = s.below(2);
  AV av(borrowed ? 0 : 2, borrowed ? 1 : 0);
  auto xa = make<double>(a), xb = make<double>(b), xz = make<double>(z);
  av.initBuffer(xa, xb, xz);
  std::vector<double> mem = z.v;
  BorrowPtr bz(mem.data(), mem.size());
  av.initBorrow(bz);
  etr::Vec<double, etr::VarPointer<AV &, 0, 0>, etr::VariableTypeTrait> x(av);
  etr::Vec<double, etr::VarPointer<AV &, 1, 0>, etr::VariableTypeTrait> y(av);
  etr::Vec<double, etr::VarPointer<AV &, 2, 0>, etr::VariableTypeTrait> w(av);
  etr::Vec<double, etr::VarPointer<AV &, 0, 1>, etr::VariableTypeTrait> p(av);
  auto chk = [&](auto &v, double k, const char *what) {
    auto d = etr::get_derivs(v);
    c.require(d.size() == n, "number of derivatives");
    for (size_t i = 0; i < n; i++) {
      double e = want.v[i] * k * (k == 1 ? 1 : z.v[i]);
      if (d[i] != e)
        c.fail(std::string("derivative ") + std::to_string(i) + " of " + what + " is " + num(d[i]) + " instead of " + num(e));
    }
  };
  // k = 2: square of the independent variable
  bool square = s.below(2);
  if (borrowed) {
    if (square)
      w = p * p * cmp<OP>(x, y);
    else
      w = cmp<OP>(x, y) * p;
    chk(w, square ? 2 : 1, "the product with a comparison (borrowed)");
  } else {
    if (square)
      w = w * w * cmp<OP>(x, y);
    else
      w = cmp<OP>(x, y) * w;
    chk(w, square ? 2 : 1, "the product with a comparison");
  }
  const auto e = etr::get_derivs(x);
  for (size_t i = 0; i < e.size(); i++)
    c.require(e[i] == 0, "derivative of another variable");
}
PBT_SUB("compare_eq", 0.3, compare<EQ>);
PBT_SUB("compare_ne", 0.3, compare<NE>);
PBT_SUB("compare_lt", 0.3, compare<LT>);
PBT_SUB("compare_le", 0.3, compare<LE>);
PBT_SUB("compare_gt", 0.3, compare<GT>);
PBT_SUB("compare_ge", 0.3, compare<GE>);
