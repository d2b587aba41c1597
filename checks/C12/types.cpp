// bounds of every number type
#include "colon.inc"
#include "numtypes.hpp"
static void types(Ctx &c) {
  Src &s = c.s;
  overflow() = false;
  double a = (double)s.below(41) - 20, b = a + (double)s.below(41) - 20;
  if (s.chance(1, 4))
    a += 0.5;
  if (s.chance(1, 4))
    b += s.pick({0.25, 0.5});
  // NOTE: both bounds signed or both not negative, as a comparison of -1 and 1u is none of numbers
  bool uns = a >= 0 && b >= 0 && s.below(2);
  int ka = ntKind(s, a, uns), kb = ntKind(s, b, uns);
  if (uns && b < a && ka != 4 && kb != 4 && b == 0)
    return; // 0u - 1
  MV want = vec({});
  if (a <= b)
    for (double i = a; i <= b; i += 1)
      want.v.push_back(i);
  else
    for (double i = a; i >= b; i -= 1)
      want.v.push_back(i);
  std::string what = "colon(" + num(a) + ", " + num(b) + ") as " + ntName(ka) + ", " + ntName(kb);
  c.log([&](auto &o) { o << what; });
  c.nontrivial(want.size() > 1);
  ntCall(ka, a, [&](auto x) {
    ntCall(kb, b, [&](auto y) {
      // NOTE: one of the bounds has the type of the range
      using D = std::common_type_t<decltype(x), decltype(y)>;
      if constexpr (std::is_same_v<D, decltype(x)> || std::is_same_v<D, decltype(y)>) {
        expectVec(c, etr::colon(x, y), want, what);
        sexp z;
        z = etr::colon(x, y);
        expectVec(c, z, want, what + ", assigned");
      }
    });
    int i = (int)b;
    double d = b;
    if (b == std::trunc(b))
      expectVec(c, etr::colon(x, i), want, what + ", int");
    expectVec(c, etr::colon(x, d), want, what + ", double");
  });
}
PBT_SUB("types", 0.5, types);
