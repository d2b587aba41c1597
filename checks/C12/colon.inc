// ranges with bounds of every kind
#include "etr_pch.hpp"
#include "etrgen.hpp"
using namespace gen;

// the number of steps is part of the model, not calculated from the bounds
struct Bounds {
  double a, b;
  MV want;
};
inline Bounds genBounds(Src &s, Ty ta, Ty tb) {
  Bounds r;
  if (ta == Ty::B || tb == Ty::B) {
    r.a = ta == Ty::B ? s.below(2) : genOf(s, ta, SMALL);
    r.b = tb == Ty::B ? s.below(2) : genOf(s, tb, SMALL);
  } else {
    r.a = ta == Ty::I && s.chance(1, 10) ? s.pick({2147483000.0, -2147483000.0, 1000000.0}) : genOf(s, ta, SMALL);
    double len = s.chance(1, 8) ? s.below(400) : s.below(12);
    bool up = s.below(2);
    double rest = ta == Ty::D || tb == Ty::D ? s.pick({0.0, 0.25, 0.5, 0.75}) : 0.0;
    if (tb == Ty::I && ta == Ty::D) { // the end has to be an integer
      r.b = std::trunc(r.a) + (up ? len : -len);
    } else
      r.b = up ? r.a + len + rest : r.a - len - rest;
    if (tb == Ty::I)
      r.b = std::max(-2147483647.0, std::min(2147483647.0, r.b));
  }
  r.want.ty = ta == Ty::D || tb == Ty::D ? Ty::D : ta == Ty::I || tb == Ty::I ? Ty::I : Ty::B;
  if (r.a <= r.b)
    for (double i = 0; r.a + i <= r.b; i += 1)
      r.want.v.push_back(r.a + i);
  else
    for (double i = 0; r.a - i >= r.b; i += 1)
      r.want.v.push_back(r.a - i);
  return r;
}

enum CK { C_SC, C_VEC, C_CONST, C_RVAL, C_OP, C_LONG };
// calls f with an object of the value v
template <class T, int K, class F> void bound(Src &s, double v, F &&f) {
  T t = static_cast<T>(v);
  if constexpr (K == C_SC) {
    f(t);
  } else if constexpr (K == C_VEC) {
    auto x = make<T>(ref::vec({v}));
    f(x);
  } else if constexpr (K == C_CONST) {
    const auto x = make<T>(ref::vec({v}));
    f(x);
  } else if constexpr (K == C_RVAL) {
    const auto x = etr::coca(t);
    f(x);
  } else if constexpr (K == C_OP) {
    auto x = make<T>(ref::vec({v}));
    T zero = T(0);
    const auto o = x + zero;
    f(o);
  } else if constexpr (K == C_LONG) { // the first element is used
    auto x = make<T>(ref::vec({v, v + 5.0, 1.0}));
    f(x);
  }
}

template <class TA, class TB, int KA, int KB> void pairs(Ctx &c) {
  Src &s = c.s;
  overflow() = false;
  Bounds bd = genBounds(s, tyOf<TA>(), tyOf<TB>());
  MV want = bd.want;
  c.log([&](auto &o) { o << "colon(" << num(bd.a) << ", " << num(bd.b) << ") kinds " << KA << "," << KB << " -> " << str(want); });
  c.nontrivial(want.size() > 1);
  if (want.size() > 1)
    c.label(bd.a < bd.b ? "upwards" : "downwards");
  bound<TA, KA>(s, bd.a, [&](auto &a) {
    bound<TB, KB>(s, bd.b, [&](auto &b) {
      auto r = etr::colon(a, b);
      expectVec(c, r, want, "colon");
      using E = std::remove_cvref_t<decltype(r[0])>;
      c.require(std::is_same_v<E, bool> == (want.ty == Ty::B) && std::is_same_v<E, int> == (want.ty == Ty::I),
                "the type of the range");
      switch (s.below(8)) {
      case 0: {
        sexp x;
        x = etr::colon(a, b);
        expectVec(c, x, want, "x = colon");
        break;
      }
      case 1: {
        etr::Vec<int> x;
        x = etr::colon(a, b);
        expectVec(c, x, convTo(want, Ty::I), "int x = colon");
        break;
      }
      case 2: {
        expectVec(c, etr::colon(a, b) * 2.0, apply2(MUL, want, scal(2.0)), "colon * 2");
        break;
      }
      case 3: {
        MV w = ref::vec({7.5});
        w.v.insert(w.v.end(), want.v.begin(), want.v.end());
        w.v.push_back(1.0);
        expectVec(c, etr::coca(7.5, etr::colon(a, b), 1), w, "coca(7.5, colon, 1)");
        break;
      }
      case 4: {
        auto q = etr::colon(a, b);
        c.require(q.size() == want.size() && !q.im(), "size of colon");
        break;
      }
      case 5: {
        MV m = genVec(s, want.size(), Ty::D, SMALL);
        auto y = make<double>(m);
        expectVec(c, y - etr::colon(a, b), apply2(SUB, m, want), "y - colon");
        break;
      }
      case 6: { // there and back again
        auto q = etr::colon(b, a);
        if (bd.a == std::trunc(bd.a) && bd.b == std::trunc(bd.b)) {
          MV w = want;
          w.v = std::vector<double>(want.v.rbegin(), want.v.rend());
          expectVec(c, q, w, "colon(b, a)");
        }
        break;
      }
      case 7: { // loop
        size_t i = 0;
        for (auto e : etr::colon(a, b)) {
          if (i >= want.size() || !((double)e == want.v[i]))
            c.fail("loop over colon, element " + std::to_string(i + 1) + " is " + num(e));
          i++;
        }
        c.require(i == want.size(), "loop over colon ends too early");
        break;
      }
      }
    });
  });
}
#define PAIR(TA, TB, KA, KB) PBT_SUB(#TA "_" #TB "_" #KA "_" #KB, 0.1, (pairs<TA, TB, KA, KB>))
#define ROW(TA, TB, KA)                                                                            \
  PAIR(TA, TB, KA, C_SC);                                                                          \
  PAIR(TA, TB, KA, C_VEC);                                                                         \
  PAIR(TA, TB, KA, C_CONST);                                                                       \
  PAIR(TA, TB, KA, C_RVAL);                                                                        \
  PAIR(TA, TB, KA, C_OP);                                                                          \
  PAIR(TA, TB, KA, C_LONG)
#define TABLE(TA, TB)                                                                              \
  ROW(TA, TB, C_SC);                                                                               \
  ROW(TA, TB, C_VEC);                                                                              \
  ROW(TA, TB, C_CONST);                                                                            \
  ROW(TA, TB, C_RVAL);                                                                             \
  ROW(TA, TB, C_OP);                                                                               \
  ROW(TA, TB, C_LONG)
