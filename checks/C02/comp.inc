// one comparison over all pairs of kinds of operands
#include "pairs.hpp"

template <int OP> void comp(Ctx &c) {
  Src &s = c.s;
  overflow() = false;
  int kl = s.below(K_COUNT), kr = s.below(K_COUNT);
  if (isScalarKind(kl) && isScalarKind(kr))
    kr = K_NUM;
  Shape sl, sr;
  genShapes(s, kl, kr, sl, sr);
  int cls = s.pick({SMALL, REAL, NEAR, NEAR, SPECIAL, EXACT});
  withOperand(s, kl, sl, cls, [&](auto &&x, const MV &mx) {
    withOperand(s, kr, sr, cls, [&](auto &&y, const MV &my) {
      using X = std::remove_cvref_t<decltype(x)>;
      using Y = std::remove_cvref_t<decltype(y)>;
      if constexpr (!(std::is_arithmetic_v<X> && std::is_arithmetic_v<Y>)) {
        MV want = apply2(OP, mx, my);
        c.log([&](auto &o) {
          o << kindName(kl) << " " << str(mx) << " " << opName(OP) << " " << kindName(kr)
            << " " << str(my) << " -> " << str(want);
        });
        if (overflow()) { // exactly the tolerance: == and != are opposite
          if constexpr (OP == EQ || OP == NE) {
            const auto eq = binary<EQ>(x, y);
            const auto ne = binary<NE>(x, y);
            for (size_t p = 0; p < want.size(); p++)
              if ((bool)eq[p] == (bool)ne[p])
                c.fail("== and != give the same result");
            c.label("difference of exactly the tolerance");
          } else
            c.label("not claimed");
          return;
        }
        bool t = false, f = false;
        for (double v : want.v)
          (v ? t : f) = true;
        c.nontrivial(want.size() > 1 && t && f);
        c.label(kindName(kl));
        if (mx.size() != my.size())
          c.label("recycling");
        if (want.im)
          c.label("matrix");
        if (cls == NEAR)
          c.label("nearly equal numbers");
        const auto e = binary<OP>(x, y);
        expectVec(c, e, want, "comparison");
        etr::Vec<bool> l;
        l = binary<OP>(x, y);
        expectVec(c, l, want, "comparison assigned to a logical variable");
        if (want.size() == 1) {
          bool b = binary<OP>(x, y);
          c.require(b == (want.v[0] != 0), "comparison as condition");
        }
      }
    });
  });
}

template <class X, class Y> static void opposite(Ctx &c, X &x, Y &y) {
  etr::Vec<bool> a, b;
  a = x == y;
  b = x != y;
  for (size_t p = 0; p < a.size(); p++)
    c.require(a[p] != b[p], "== and != give the same result");
}
// the uses of a comparison: index, number, condition
template <int OP, class T> void uses(Ctx &c) {
  Src &s = c.s;
  overflow() = false;
  size_t n = genSize(s, 100);
  MV mx = genVec(s, n, tyOf<T>(), s.pick({SMALL, REAL, NEAR, EXACT}));
  MV my = genVec(s, s.chance(1, 3) ? 1 + s.below(n) : n, Ty::D, s.pick({SMALL, NEAR, EXACT}));
  auto x = make<T>(mx);
  auto y = make<double>(my);
  MV want = apply2(OP, mx, my);
  if (overflow()) {
    if (OP == EQ || OP == NE)
      opposite(c, x, y);
    return;
  }
  c.log([&](auto &o) { o << str(mx) << " " << opName(OP) << " " << str(my) << " -> " << str(want); });
  c.nontrivial(n > 1);
  sexp d;
  d = binary<OP>(x, y);
  expectVec(c, d, want, "comparison assigned to a numeric variable");
  etr::Vec<int> i;
  i = binary<OP>(x, y);
  expectVec(c, i, want, "comparison assigned to an integer variable");
  sexp sum;
  sum = binary<OP>(x, y) + binary<OP>(x, y);
  MV two = want;
  for (auto &v : two.v)
    v *= 2;
  expectVec(c, sum, two, "sum of comparisons");
  sexp q;
  q = binary<OP>(x, y) / 4.0;
  for (auto &v : two.v)
    v /= 8;
  expectVec(c, q, two, "quotient of a comparison");
  MV sel;
  for (size_t k = 0; k < n; k++)
    if (want.v[k])
      sel.v.push_back(mx.v[k]);
  if (!sel.v.empty()) {
    sexp r;
    r = etr::subset(x, binary<OP>(x, y));
    expectVec(c, r, sel, "comparison as index");
    auto z = x;
    etr::subset(z, binary<OP>(x, y)) = 1.0;
    MV w = mx;
    for (size_t k = 0; k < n; k++)
      if (want.v[k])
        w.v[k] = 1.0;
    expectVec(c, z, w, "comparison as index of an assignment");
  }
  // one element in a condition
  size_t k = 1 + s.below(n), l = 1 + s.below(my.size());
  bool got = false;
  if (binary<OP>(etr::subset(x, +(int)k), etr::subset(y, +(int)l)))
    got = true;
  overflow() = false;
  bool w = op2(OP, mx.v[k - 1], my.v[l - 1]) != 0;
  if (!overflow())
    c.require(got == w, "comparison of elements as condition");
  // == and != are opposite
  if (OP == EQ || OP == NE)
    opposite(c, x, y);
}
