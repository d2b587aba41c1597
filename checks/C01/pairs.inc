#include "pairs.hpp"

template <int OP> void pairs(Ctx &c) {
  Src &s = c.s;
  int kl, kr;
  kl = s.below(K_COUNT);
  kr = s.below(K_COUNT);
  if (isScalarKind(kl) && isScalarKind(kr))
    kr = K_NUM;
  Shape sl, sr;
  genShapes(s, kl, kr, sl, sr);
  int cls = s.pick({SMALL, REAL, SPECIAL});
  withOperand(s, kl, sl, cls, [&](auto &&x, const MV &mx) {
    withOperand(s, kr, sr, cls, [&](auto &&y, const MV &my) {
      using X = std::remove_cvref_t<decltype(x)>;
      using Y = std::remove_cvref_t<decltype(y)>;
      if constexpr (!(std::is_arithmetic_v<X> && std::is_arithmetic_v<Y>)) {
        MV want = apply2(OP, mx, my);
        c.log([&](auto &o) {
          o << kindName(kl) << " " << str(mx) << " " << opName(OP) << " "
            << kindName(kr) << " " << str(my);
        });
        if (!inDomain(want))
          return;
        c.nontrivial(want.size() > 1);
        c.label(kindName(kl));
        if (mx.size() != my.size())
          c.label("recycling");
        if (want.im)
          c.label("matrix");
        expectVec(c, binary<OP>(x, y), want, "calculation");
        if constexpr (OP != POW) { // exactly the operation of C++ on the elements
          MV ex = mx, ey = my;
          if constexpr (!std::is_arithmetic_v<X>)
            ex.v = readBack(x).v;
          if constexpr (!std::is_arithmetic_v<Y>)
            ey.v = readBack(y).v;
          expectVec(c, binary<OP>(x, y), apply2(OP, ex, ey), "calculation, exactly", true, 0.0);
        }
        sexp res;
        if (s.below(2))
          res = etr::coca(7.0, 8.0, 9.0, 10.0, 11.0);
        res = binary<OP>(x, y);
        expectVec(c, res, want, "assigned calculation");
      }
    });
  });
}
