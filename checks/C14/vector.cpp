// vector_numeric, vector_integer, vector_logical, the constructors
#include "dims.hpp"
// subsets are no size
template <class X>
constexpr bool noSubset = !std::is_same_v<std::remove_cvref_t<X>, std::remove_cvref_t<decltype(etr::subset(std::declval<sexp &>(), 2))>>;
template <int WHICH> static void zeros(Ctx &c) {
  Src &s = c.s;
  int k = (int)s.below(T_SUB);
  double n = (double)(s.chance(1, 10) ? genSize(s) : 1 + s.below(20));
  if (s.chance(1, 6))
    n = s.pick({0.0, -1.0, -2.0, -1000.0});
  n = tkNum(k, n);
  bool bad = n < 1, many = false;
  if (!bad && tkFrac(k) && s.chance(1, 10))
    n += s.pick({0.5, 0.75});
  // more than one element is no valid size
  if (k == T_VDBL && s.chance(1, 4))
    many = true;
  c.log([&](auto &o) { o << "vector_" << WHICH << "(" << num(n) << ") kind " << k << (many ? " many" : ""); });
  c.nontrivial(true);
  if (bad || many)
    c.label("invalid size");
  auto run = [&](auto &&x) {
    if constexpr (!noSubset<decltype(x)>)
      return;
    else {
    auto call = [&]() {
      if constexpr (WHICH == 0)
        return etr::vector_numeric(x);
      else if constexpr (WHICH == 1)
        return etr::vector_integer(x);
      else
        return etr::vector_logical(x);
    };
    if (bad || many) {
      if (!throws([&]() { auto t = call(); (void)t; }))
        c.fail("an invalid size is accepted");
      return;
    }
    MV want = ref::vec(std::vector<double>((size_t)n, 0.0));
    // memory which was used before
    {
      auto garbage = make<double>(ref::vec(std::vector<double>((size_t)n, 1e300)));
      (void)garbage;
    }
    expectVec(c, call(), want, "vector");
    {
      auto v = call();
      using E = std::remove_cvref_t<decltype(v[0])>;
      using W = std::conditional_t<WHICH == 0, double, std::conditional_t<WHICH == 1, int, bool>>;
      if constexpr (!std::is_same_v<E, W>)
        c.fail("the elements have another type");
    }
    sexp y;
    y = etr::coca(1.0, 2.0);
    y = call();
    expectVec(c, y, want, "y = vector");
    etr::Vec<int> yi;
    yi = call();
    expectVec(c, yi, want, "int y = vector");
    etr::Vec<bool> yb;
    yb = call();
    expectVec(c, yb, want, "bool y = vector");
    size_t p = s.below((size_t)n);
    y[p] = 3.5;
    want.v[p] = 3.5;
    expectVec(c, y, want, "y[i] = 3.5");
    }
  };
  if (many) {
    auto x = make<double>(ref::vec({n, 2.0}));
    run(x);
  } else
    anyDim(s, k, n, false, [&](auto &&x) {
      if (s.below(2)) {
        const auto &cx = x;
        run(cx);
      } else
        run(x);
    });
}
PBT_SUB("vector_numeric", 1, zeros<0>);
PBT_SUB("vector_integer", 1, zeros<1>);
PBT_SUB("vector_logical", 1, zeros<2>);

template <class T> static void ctor(Ctx &c) {
  Src &s = c.s;
  const Ty ty = tyOf<T>();
  size_t r = 1 + s.below(8), k = 1 + s.below(8);
  double v = genOf(s, ty, SMALL);
  c.log([&](auto &o) { o << r << " x " << k << " filled with " << num(v); });
  c.nontrivial(r * k > 1);
  MV m = mat(std::vector<double>(r * k, conv(v, ty)), r, k, ty);
  etr::Vec<T> x(r, k, v);
  expectVec(c, x, m, "Vec(rows, columns, value)");
  etr::Vec<T> y(r, k);
  c.require(y.size() == r * k && y.im() && y.nr() == r && y.nc() == k, "Vec(rows, columns)");
  etr::Vec<T> z(etr::SI{r});
  c.require(z.size() == r && !z.im(), "Vec(SI)");
  etr::Vec<T> w(etr::coca((T)v, (T)v));
  expectVec(c, w, ref::vec({conv(v, ty), conv(v, ty)}), "Vec(coca)");
  etr::Vec<T> q(etr::matrix((T)v, size_t{r}, size_t{k}));
  expectVec(c, q, m, "Vec(matrix)");
  etr::Vec<T> cp(q);
  expectVec(c, cp, m, "Vec(variable)");
  double dv = v;
  if constexpr (std::is_same_v<T, double>) {
    etr::Vec<T> a(dv);
    expectVec(c, a, ref::vec({v}), "Vec(double)");
    a = dv + 1;
    expectVec(c, a, ref::vec({v + 1}), "variable = double");
  }
  if (!throws([&]() { etr::Vec<T> e(size_t{0}, size_t{k}); }) || !throws([&]() { etr::Vec<T> e(size_t{r}, size_t{0}); }))
    c.fail("a matrix without elements is created");
}
PBT_SUB("ctor_num", 0.5, ctor<double>);
PBT_SUB("ctor_int", 0.5, ctor<int>);
PBT_SUB("ctor_log", 0.5, ctor<bool>);
