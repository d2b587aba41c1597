// a function applied to every kind of argument
#include "pairs.hpp"
template <int F, class X> auto call(const X &x) {
  using namespace gen;
  if constexpr (F == NEG)
    return -x;
  else if constexpr (F == SIN)
    return etr::sinus(x);
  else if constexpr (F == ASIN)
    return etr::asinus(x);
  else if constexpr (F == SINH)
    return etr::sinush(x);
  else if constexpr (F == COS)
    return etr::cosinus(x);
  else if constexpr (F == ACOS)
    return etr::acosinus(x);
  else if constexpr (F == COSH)
    return etr::cosinush(x);
  else if constexpr (F == TAN)
    return etr::tangens(x);
  else if constexpr (F == ATAN)
    return etr::atangens(x);
  else if constexpr (F == TANH)
    return etr::tangensh(x);
  else if constexpr (F == LN)
    return etr::ln(x);
  else if constexpr (F == SQRT)
    return etr::sqroot(x);
  else if constexpr (F == EXP)
    return etr::exp(x);
}

template <int F> void fn(Ctx &c) {
  Src &s = c.s;
  overflow() = false;
  int k = s.below(K_COUNT);
  if (k == K_INT || k == K_BOOL)
    k = K_NUM;
  Shape sh = vecShape(genSize(s));
  if (canBeMatrix(k) && s.chance(1, 4))
    sh = matShape(genDim(s, 6), genDim(s, 6));
  int cls = s.pick({SMALL, REAL, SPECIAL, REAL});
  bool unit = s.chance(1, 3);
  withOperand(s, k, sh, cls, [&](auto &&x, const MV &m) {
    using X = std::remove_cvref_t<decltype(x)>;
    if constexpr (!(std::is_same_v<X, int> || std::is_same_v<X, bool>)) {
      MV want = apply1(F, m);
      c.log([&](auto &o) { o << fnName(F) << "(" << kindName(k) << " " << str(m) << ") -> " << str(want); });
      bool fin = false;
      for (double d : want.v)
        fin = fin || std::isfinite(d);
      c.nontrivial(fin);
      c.label(kindName(k));
      if (want.im)
        c.label("matrix");
      const std::string what = std::string(fnName(F)) + " of " + kindName(k);
      if constexpr (std::is_same_v<X, double>) {
        if constexpr (F != NEG) {
          double r = call<F>(x);
          c.require(same(r, want.v[0]), what + ": " + num(r) + " instead of " + num(want.v[0]));
          // the same value as that of an object
          sexp v, w;
          v = x;
          w = call<F>(v);
          expectVec(c, w, ref::vec(want.v), what);
        }
      } else {
        expectVec(c, call<F>(x), want, what);
        sexp r;
        if (s.below(2))
          r = etr::coca(1.0, 2.0);
        r = call<F>(x);
        expectVec(c, r, want, what + ", assigned");
        sexp p;
        double two = 2.0;
        p = call<F>(x) * two;
        MV w2 = want;
        for (auto &d : w2.v)
          d *= 2.0;
        w2.ty = Ty::D;
        expectVec(c, p, w2, what + ", in a calculation");
        expectVec(c, x, m, what + ", argument");
      }
    }
  });
}
// values of [-1, 1], at the limits, and the laws between the functions
template <int F> void range(Ctx &c) {
  Src &s = c.s;
  size_t n = genSize(s, 200);
  MV m;
  for (size_t i = 0; i < n; i++)
    m.v.push_back(s.chance(1, 6) ? s.pick({0.0, 1.0, -1.0, 0.5, -0.5, -0.0, 1e-12, 709.0, -745.0, 0.9999999999})
                                 : static_cast<double>(s.range(-1000000, 1000000)) / 1000000.0);
  auto x = make<double>(m);
  MV want = apply1(F, m);
  c.log([&](auto &o) { o << fnName(F) << "(" << str(m) << ") -> " << str(want); });
  c.nontrivial(n > 1);
  sexp r;
  r = call<F>(x);
  expectVec(c, r, want, fnName(F));
  x = call<F>(x); // the argument is replaced
  expectVec(c, x, want, fnName(F));
}
