// operations with numbers of every type
#include "etr_pch.hpp"
#include "numtypes.hpp"
#include "pairs.hpp"
using namespace gen;
namespace {
template <int OP, class T, bool LEFT> void number(Ctx &c) {
  Src &s = c.s;
  overflow() = false;
  constexpr Ty ty = tyOf<T>();
  MV m = s.chance(1, 4) ? genMat(s, genDim(s, 6), genDim(s, 6), ty, SMALL) : genVec(s, genSize(s, 40), ty, SMALL);
  // NOTE: with whole numbers the result is exact in every type
  double v = (double)s.below(13) - 6;
  if (s.chance(1, 3) && ty == Ty::D)
    v += s.pick({0.5, 0.25, 0.75});
  int k = ntKind(s, v, ty == Ty::D);
  MV n = scal(v), want = LEFT ? apply2(OP, n, m) : apply2(OP, m, n);
  if (overflow())
    return;
  want.ty = OP >= EQ ? Ty::B : Ty::D;
  std::string what = LEFT ? num(v) + " " + opName(OP) + " " + str(m) : str(m) + " " + opName(OP) + " " + num(v);
  what += std::string(" as ") + ntName(k);
  c.log([&](auto &o) { o << what; });
  c.nontrivial(m.size() > 1);
  auto x = make<T>(m);
  ntCall(k, v, [&](auto y) {
    auto e = [&]() {
      if constexpr (LEFT)
        return binary<OP>(y, x);
      else
        return binary<OP>(x, y);
    };
    const auto r = e();
    expectVec(c, r, want, what);
    sexp z;
    z = e();
    expectVec(c, z, want, what + ", assigned");
    z = e() + 1.0;
    expectVec(c, z, apply2(ADD, want, scal(1)), what + ", plus 1");
    expectVec(c, x, m, what + ", the operand");
  });
}
} // namespace
#define NTYPES(OP)                                                                                                     \
  PBT_SUB("number " #OP " double", 0.1, (number<OP, double, false>));                                                  \
  PBT_SUB("number " #OP " int", 0.1, (number<OP, int, false>));                                                        \
  PBT_SUB("number left " #OP " double", 0.1, (number<OP, double, true>));                                              \
  PBT_SUB("number left " #OP " int", 0.1, (number<OP, int, true>));
