#include "dims.hpp"
template <int K> static void create(Ctx &c) {
  Src &s = c.s;
  overflow() = false;
  int kr = (int)s.below(T_COUNT), kc = (int)s.below(T_COUNT);
  double R = (double)(1 + s.below(8)), C = (double)(1 + s.below(8));
  if (s.chance(1, 12))
    R = 1 + s.below(60);
  int bad = 0;
  if (s.chance(1, 8)) {
    (s.below(2) ? R : C) = s.pick({0.0, -1.0, -3.0, 0.0, -100.0});
  }
  R = tkNum(kr, R);
  C = tkNum(kc, C);
  if (R < 1 || C < 1)
    bad = 1;
  double Rf = R, Cf = C; // fractions are cut off
  if (!bad && tkFrac(kr) && s.chance(1, 10))
    Rf += 0.5;
  if (!bad && tkFrac(kc) && s.chance(1, 10))
    Cf += 0.75;
  size_t n = bad ? 1 + s.below(6) : (size_t)(R * C);
  if (!bad && !isScalarKind(K) && s.chance(1, 8)) { // another number of elements
    size_t d = 1 + s.below(3);
    if (s.below(2) && n > d)
      n -= d;
    else
      n += d;
    bad = 2;
  }
  Shape sh = vecShape(n);
  if (!bad && canBeMatrix(K) && s.chance(1, 4)) // a matrix as content
    sh = matShape((size_t)C, (size_t)R);
  operand<K>(s, sh, REAL, [&](auto &x, const MV &m) {
    if (overflow() || (!isScalarKind(K) && m.size() != n))
      return;
    MV want = mat(isScalarKind(K) ? std::vector<double>(bad ? 0 : (size_t)(R * C), m.v[0]) : m.v, bad ? 0 : (size_t)R, bad ? 0 : (size_t)C, m.ty);
    c.log([&](auto &o) { o << "matrix(" << kindName(K) << " " << str(m) << ", " << num(Rf) << ", " << num(Cf) << ") " << kr << "," << kc; });
    c.nontrivial(bad || want.size() > 1);
    if (bad)
      c.label(bad == 1 ? "size below one" : "content of another length");
    auto content = [&]() -> decltype(auto) {
      if constexpr (isScalarKind(K) || K == K_BORROW)
        return std::remove_cvref_t<decltype(x)>(x);
      else
        return std::move(x);
    };
    anyDim(s, kr, Rf, true, [&](auto &&r) {
      anyDim(s, kc, Cf, true, [&](auto &&k) {
        if (bad) {
          if (!throws([&]() {
                auto t = etr::matrix(content(), std::move(r), std::move(k));
                (void)t;
              }))
            c.fail("an invalid matrix is created");
          return;
        }
        auto t = etr::matrix(content(), std::move(r), std::move(k));
        using E = std::remove_cvref_t<decltype(t[0])>;
        c.require(std::is_same_v<E, bool> == (want.ty == Ty::B) && std::is_same_v<E, int> == (want.ty == Ty::I), "the type of the matrix");
        expectVec(c, t, want, "matrix");
        sexp y;
        y = t;
        expectVec(c, y, want, "y = matrix");
        auto d = etr::dim(t);
        c.require(d.size() == 2 && d[0] == (int)want.nr && d[1] == (int)want.nc, "dim(matrix)");
        size_t i = s.below(want.nr), j = s.below(want.nc);
        c.require(same(etr::at(y, (int)i + 1, (int)j + 1), want.v[j * want.nr + i]), "element of the matrix");
      });
    });
  });
}
