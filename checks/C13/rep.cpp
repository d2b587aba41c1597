// rep for every kind of content and of the number of repetitions
#include "etr_pch.hpp"
#include "etrgen.hpp"
using namespace gen;

enum TK { T_INT, T_DBL, T_SIZE, T_BOOL, T_CINT, T_VDBL, T_VINT, T_CVEC, T_COCA, T_OP };
// calls f with the number n
template <int K, class F> static void times(Src &s, double n, F &&f) {
  if constexpr (K == T_INT) {
    int t = (int)n;
    f(t);
  } else if constexpr (K == T_CINT) {
    const int t = (int)n;
    f(t);
  } else if constexpr (K == T_DBL) {
    double t = n;
    f(t);
  } else if constexpr (K == T_SIZE) {
    size_t t = (size_t)n;
    f(t);
  } else if constexpr (K == T_BOOL) {
    bool t = n >= 1;
    f(t);
  } else if constexpr (K == T_VDBL) {
    auto x = make<double>(ref::vec(s.below(3) ? std::vector<double>{n} : std::vector<double>{n, 7.0, -1.0}));
    f(x);
  } else if constexpr (K == T_VINT) {
    auto x = make<int>(ref::vec({n}));
    f(x);
  } else if constexpr (K == T_CVEC) {
    const auto x = make<double>(ref::vec({n}));
    f(x);
  } else if constexpr (K == T_COCA) {
    const auto x = etr::coca(n, 5.0);
    f(x);
  } else {
    auto x = make<double>(ref::vec({n - 1.0}));
    double one = 1.0;
    const auto o = x + one;
    f(o);
  }
}

template <int K, int T> static void repeat(Ctx &c) {
  Src &s = c.s;
  overflow() = false;
  double n = (double)(1 + s.below(7));
  if (s.chance(1, 6))
    n = s.pick({0.0, -1.0, -100.0, 0.5});
  if (T == T_SIZE || T == T_BOOL)
    n = n < 1 ? 0 : T == T_BOOL ? 1 : n;
  if (T == T_INT || T == T_CINT || T == T_VINT)
    n = std::trunc(n);
  else if (n >= 1 && T != T_BOOL && T != T_SIZE && s.chance(1, 8))
    n += s.pick({0.25, 0.999});
  Shape sh = s.chance(1, 4) && canBeMatrix(K) ? matShape(genDim(s, 3), genDim(s, 3)) : vecShape(genSize(s, 60));
  operand<K>(s, sh, REAL, [&](auto &x, const MV &m) {
    if (overflow())
      return;
    MV want;
    want.ty = m.ty;
    for (int i = 1; i <= n; i++)
      want.v.insert(want.v.end(), m.v.begin(), m.v.end());
    c.log([&](auto &o) { o << "rep(" << kindName(K) << " " << str(m) << ", " << num(n) << ") kind " << T; });
    c.nontrivial(n < 1 || want.size() > 2);
    if (n < 1)
      c.label("number below one");
    times<T>(s, n, [&](auto &t) {
      if (n < 1) {
        if (!throws([&]() {
              auto r = etr::rep(x, t);
              (void)r;
            }))
          c.fail("rep with a number of repetitions below one is accepted");
        return;
      }
      expectVec(c, etr::rep(x, t), want, "rep");
      sexp y;
      y = etr::rep(x, t);
      expectVec(c, y, want, "y = rep");
    });
  });
}
template <int T> static void all(Ctx &c) {
  switch (c.s.below(11)) {
  case 0: return repeat<K_NUM, T>(c);
  case 1: return repeat<K_DBL, T>(c);
  case 2: return repeat<K_INTVEC, T>(c);
  case 3: return repeat<K_BOOLVEC, T>(c);
  case 4: return repeat<K_INT, T>(c);
  case 5: return repeat<K_BOOL, T>(c);
  case 6: return repeat<K_BORROW, T>(c);
  case 7: return repeat<K_COCA, T>(c);
  case 8: return repeat<K_COLON, T>(c);
  case 9: return repeat<K_SUBSET, T>(c);
  case 10: return repeat<K_BINOP, T>(c);
  }
}
PBT_SUB("rep_int", 0.5, all<T_INT>);
PBT_SUB("rep_double", 0.5, all<T_DBL>);
PBT_SUB("rep_size", 0.5, all<T_SIZE>);
PBT_SUB("rep_bool", 0.2, all<T_BOOL>);
PBT_SUB("rep_const", 0.2, all<T_CINT>);
PBT_SUB("rep_var", 0.5, all<T_VDBL>);
PBT_SUB("rep_intvar", 0.5, all<T_VINT>);
PBT_SUB("rep_constvar", 0.2, all<T_CVEC>);
PBT_SUB("rep_coca", 0.2, all<T_COCA>);
PBT_SUB("rep_op", 0.2, all<T_OP>);

// temporaries, self assignment, nesting
static void inPlace(Ctx &c) {
  Src &s = c.s;
  MV m = genVec(s, genSize(s, 40), Ty::D, REAL);
  auto x = make<double>(m);
  c.log([&](auto &o) { o << str(m); });
  c.nontrivial(m.size() > 1);
  int steps = 1 + (int)s.below(4);
  for (int k = 0; k < steps && m.size() < 2000; k++) {
    int n = 1 + (int)s.below(4);
    MV r;
    switch (s.below(4)) {
    case 0:
      x = etr::rep(x, +n);
      for (int i = 0; i < n; i++)
        r.v.insert(r.v.end(), m.v.begin(), m.v.end());
      break;
    case 1:
      x = etr::rep(x + 1.0, +n);
      for (int i = 0; i < n; i++)
        for (double q : m.v)
          r.v.push_back(q + 1.0);
      break;
    case 2:
      x = etr::coca(etr::rep(x, +n), etr::rep(2.5, +n), x);
      for (int i = 0; i < n; i++)
        r.v.insert(r.v.end(), m.v.begin(), m.v.end());
      for (int i = 0; i < n; i++)
        r.v.push_back(2.5);
      r.v.insert(r.v.end(), m.v.begin(), m.v.end());
      break;
    case 3:
      x = etr::rep(etr::rep(etr::coca(x, 1), +n), 2);
      for (int i = 0; i < 2 * n; i++) {
        r.v.insert(r.v.end(), m.v.begin(), m.v.end());
        r.v.push_back(1);
      }
      break;
    }
    m = r;
    expectVec(c, x, m, "step");
  }
}
PBT_SUB("rep_in_place", 0.5, inPlace);
