// Generated operands: every kind of object which the library accepts in a
// calculation together with its meaning in the reference model.
#ifndef ETRGEN_HPP
#define ETRGEN_HPP
#include "refmodel.hpp"

namespace gen {
using namespace ref;

struct Shape {
  bool im = false;
  size_t n = 1, nr = 0, nc = 0;
};
inline Shape vecShape(size_t n) { return {false, n, 0, 0}; }
inline Shape matShape(size_t r, size_t c) { return {true, r * c, r, c}; }

// fills an object of the library element by element
template <class V> void load(V &x, const MV &m) {
  for (size_t i = 0; i < m.size(); i++)
    x[i] = static_cast<std::remove_reference_t<decltype(x[i])>>(m.v[i]);
}
template <class T> auto make(const MV &m) {
  using V = etr::Vec<T>;
  if (m.im) {
    V x(m.nr, m.nc);
    load(x, m);
    return x;
  }
  V x(etr::SI{m.size()});
  load(x, m);
  return x;
}
template <class T> constexpr Ty tyOf() {
  return std::is_same_v<T, bool> ? Ty::B : std::is_same_v<T, int> ? Ty::I : Ty::D;
}
inline MV genShape(Src &s, const Shape &sh, Ty t, int cls) {
  return sh.im ? genMat(s, sh.nr, sh.nc, t, cls) : genVec(s, sh.n, t, cls);
}

enum Kind {
  K_NUM,     // numeric variable
  K_DBL,     // double
  K_INTVEC,  // integer variable
  K_BOOLVEC, // logical variable
  K_INT,     // int
  K_BOOL,    // bool
  K_BORROW,  // borrowed memory
  K_COCA,    // result of a function (r value)
  K_COLON,   //
  K_SUBSET,  // subset of a variable
  K_BINOP,   // calculation
  K_UNOP,    // calculation
  K_COMP,    // comparison
  K_SUBOP,   // subset of a calculation
  K_CONST,   // constant variable
  K_ISUBSET, // subset of an integer or logical variable
  K_IOP,     // calculation of integers
  K_COUNT
};
inline const char *kindName(int k) {
  static const char *n[] = {"numeric variable", "double", "integer variable",
                            "logical variable", "int", "bool", "borrowed",
                            "coca", "colon", "subset", "calculation",
                            "unary calculation", "comparison",
                            "subset of calculation", "constant variable",
                            "subset of integers", "integer calculation"};
  return n[k];
}
constexpr bool isScalarKind(int k) { return k == K_DBL || k == K_INT || k == K_BOOL; }
constexpr bool canBeMatrix(int k) {
  return !isScalarKind(k);
}

// calls f(operand, model)
template <int K, class F>
void operand(Src &s, const Shape &sh, int cls, F &&f) {
  if constexpr (K == K_NUM) {
    MV m = genShape(s, sh, Ty::D, cls);
    auto x = make<double>(m);
    f(x, m);
  } else if constexpr (K == K_DBL) {
    double d = genOf(s, Ty::D, cls);
    f(d, scal(d));
  } else if constexpr (K == K_INTVEC) {
    MV m = genShape(s, sh, Ty::I, cls);
    auto x = make<int>(m);
    f(x, m);
  } else if constexpr (K == K_BOOLVEC) {
    MV m = genShape(s, sh, Ty::B, cls);
    auto x = make<bool>(m);
    f(x, m);
  } else if constexpr (K == K_INT) {
    int d = static_cast<int>(genOf(s, Ty::I, cls));
    f(d, scal(d, Ty::I));
  } else if constexpr (K == K_BOOL) {
    bool d = s.below(2);
    f(d, scal(d, Ty::B));
  } else if constexpr (K == K_BORROW) {
    MV m = genShape(s, sh, Ty::D, cls);
    std::vector<double> mem = m.v;
    if (m.im) {
      BorrowPtr x(mem.data(), m.nr, m.nc);
      f(x, m);
    } else {
      BorrowPtr x(mem.data(), mem.size());
      f(x, m);
    }
  } else if constexpr (K == K_COCA) {
    if (sh.im) {
      MV m = genMat(s, sh.nr, sh.nc, Ty::D, cls);
      auto v = make<double>(vec(m.v));
      auto x = etr::matrix(etr::coca(v), size_t{sh.nr}, size_t{sh.nc});
      f(x, m);
    } else {
      MV m = genVec(s, sh.n, Ty::D, cls);
      double first = m.v[0];
      if (sh.n == 1) {
        auto x = etr::coca(first);
        f(x, m);
      } else {
        auto rest = make<double>(vec(std::vector<double>(m.v.begin() + 1, m.v.end())));
        auto x = etr::coca(first, rest);
        f(x, m);
      }
    }
  } else if constexpr (K == K_COLON) {
    int a = static_cast<int>(s.below(21)) - 10;
    MV m;
    m.ty = Ty::I;
    for (size_t i = 0; i < sh.n; i++)
      m.v.push_back(a + static_cast<double>(i));
    if (sh.im) {
      m.im = true;
      m.nr = sh.nr;
      m.nc = sh.nc;
      auto x = etr::matrix(etr::colon(a, a + static_cast<int>(sh.n) - 1), size_t{sh.nr}, size_t{sh.nc});
      f(x, m);
    } else {
      auto x = etr::colon(a, a + static_cast<int>(sh.n) - 1);
      f(x, m);
    }
  } else if constexpr (K == K_SUBSET) {
    // a part of a larger object, in arbitrary order
    if (sh.im) {
      size_t R = sh.nr + s.below(2), C = sh.nc + s.below(2);
      MV big = genMat(s, R, C, Ty::D, cls), m;
      auto b = make<double>(big);
      std::vector<double> ri, ci;
      for (size_t i = 0; i < sh.nr; i++)
        ri.push_back(1.0 + s.below(R));
      for (size_t i = 0; i < sh.nc; i++)
        ci.push_back(1.0 + s.below(C));
      for (size_t j = 0; j < sh.nc; j++)
        for (size_t i = 0; i < sh.nr; i++)
          m.v.push_back(big.v[(ci[j] - 1) * R + ri[i] - 1]);
      m.im = true;
      m.nr = sh.nr;
      m.nc = sh.nc;
      auto rv = make<double>(vec(ri));
      auto cv = make<double>(vec(ci));
      auto x = etr::subset(b, rv, cv);
      f(x, m);
    } else {
      size_t N = sh.n + s.below(4);
      MV big = genVec(s, N, Ty::D, cls), m;
      auto b = make<double>(big);
      std::vector<double> idx;
      for (size_t i = 0; i < sh.n; i++)
        idx.push_back(1.0 + s.below(N));
      for (double i : idx)
        m.v.push_back(big.v[i - 1]);
      auto iv = make<double>(vec(idx));
      auto x = etr::subset(b, iv);
      f(x, m);
    }
  } else if constexpr (K == K_BINOP) {
    MV m = genShape(s, sh, Ty::D, cls);
    auto y = make<double>(m);
    MV o = genVec(s, 1 + s.below(sh.n), Ty::D, cls);
    auto z = make<double>(o);
    auto x = y + z;
    f(x, apply2(ADD, m, o));
  } else if constexpr (K == K_UNOP) {
    MV m = genShape(s, sh, Ty::D, cls);
    auto y = make<double>(m);
    auto x = -y;
    f(x, apply1(NEG, m));
  } else if constexpr (K == K_COMP) {
    MV m = genShape(s, sh, Ty::D, SMALL);
    auto y = make<double>(m);
    double t = genSmall(s);
    auto x = y > t;
    f(x, apply2(GT, m, scal(t)));
  } else if constexpr (K == K_SUBOP) {
    if (sh.im) {
      MV m = genMat(s, sh.nr, sh.nc, Ty::D, cls);
      auto y = make<double>(m);
      double t = genVal(s, cls);
      auto o = y * t;
      auto rv = etr::colon(1, static_cast<int>(sh.nr));
      auto cv = etr::colon(static_cast<int>(sh.nc), 1);
      auto x = etr::subset(std::move(o), rv, cv);
      MV r = m;
      for (size_t j = 0; j < sh.nc; j++)
        for (size_t i = 0; i < sh.nr; i++)
          r.v[j * sh.nr + i] = m.v[(sh.nc - 1 - j) * sh.nr + i] * t;
      f(x, r);
    } else {
      MV m = genVec(s, sh.n, Ty::D, cls);
      auto y = make<double>(m);
      double t = genVal(s, cls);
      auto o = y * t;
      MV r;
      auto iv = etr::colon(static_cast<int>(sh.n), 1);
      auto x = etr::subset(std::move(o), iv);
      for (size_t i = 0; i < sh.n; i++)
        r.v.push_back(m.v[sh.n - 1 - i] * t);
      f(x, r);
    }
  } else if constexpr (K == K_CONST) {
    MV m = genShape(s, sh, Ty::D, cls);
    const auto x = make<double>(m);
    f(x, m);
  } else if constexpr (K == K_ISUBSET) {
    size_t R = sh.im ? sh.nr + s.below(2) : 0, C = sh.im ? sh.nc + s.below(2) : 0;
    MV big = sh.im ? genMat(s, R, C, Ty::I, cls) : genVec(s, sh.n + s.below(3), Ty::I, cls), m;
    m.ty = Ty::I;
    auto b = make<int>(big);
    if (sh.im) { // one coherent block, logical columns
      size_t r0 = s.below(R - sh.nr + 1), c0 = s.below(C - sh.nc + 1);
      MV lc;
      lc.ty = Ty::B;
      for (size_t j = 0; j < C; j++)
        lc.v.push_back(j >= c0 && j < c0 + sh.nc);
      auto cv = make<bool>(lc);
      auto rv = etr::colon(static_cast<int>(r0 + 1), static_cast<int>(r0 + sh.nr));
      for (size_t j = c0; j < c0 + sh.nc; j++)
        for (size_t i = r0; i < r0 + sh.nr; i++)
          m.v.push_back(big.v[j * R + i]);
      m.im = true;
      m.nr = sh.nr;
      m.nc = sh.nc;
      auto x = etr::subset(b, rv, cv);
      f(x, m);
    } else {
      MV idx = vec({}, Ty::I);
      for (size_t i = 0; i < sh.n; i++)
        idx.v.push_back(1.0 + s.below(big.size()));
      for (double i : idx.v)
        m.v.push_back(big.v[static_cast<size_t>(i) - 1]);
      auto iv = make<int>(idx);
      auto x = etr::subset(b, iv);
      f(x, m);
    }
  } else if constexpr (K == K_IOP) {
    MV m = genShape(s, sh, Ty::I, SMALL);
    auto y = make<int>(m);
    MV o = genVec(s, 1 + s.below(sh.n), Ty::B, SMALL);
    auto z = make<bool>(o);
    auto x = y - z;
    f(x, apply2(SUB, m, o));
  }
}

template <class F> void withOperand(Src &s, int k, const Shape &sh, int cls, F &&f) {
  switch (k) {
#define ETR_K(x)                                                               \
  case x:                                                                      \
    operand<x>(s, sh, cls, f);                                                 \
    break;
    ETR_K(K_NUM)
    ETR_K(K_DBL)
    ETR_K(K_INTVEC)
    ETR_K(K_BOOLVEC)
    ETR_K(K_INT)
    ETR_K(K_BOOL)
    ETR_K(K_BORROW)
    ETR_K(K_COCA)
    ETR_K(K_COLON)
    ETR_K(K_SUBSET)
    ETR_K(K_BINOP)
    ETR_K(K_UNOP)
    ETR_K(K_COMP)
    ETR_K(K_SUBOP)
    ETR_K(K_CONST)
    ETR_K(K_ISUBSET)
    ETR_K(K_IOP)
#undef ETR_K
  }
}

// the variables of a generated program
struct Env {
  Src &s;
  bool matMode;
  size_t R = 1, C = 1;
  int cls;
  Env(Ctx &c, bool mat, int cls_ = -1) : s(c.s), matMode(mat) {
    R = genDim(s);
    C = genDim(s);
    cls = cls_ >= 0 ? cls_ : s.pick({SMALL, gen::REAL, gen::REAL, SPECIAL});
    overflow() = false;
  }
  size_t len() { return matMode ? 1 + s.below(R * C) : genSize(s, 120); }
  MV vec(Ty t) { return genVec(s, len(), t, cls); }
  MV mat(Ty t) { return genMat(s, R, C, t, cls); }
  double dbl() { return genOf(s, Ty::D, cls); }
  int num() { return static_cast<int>(genOf(s, Ty::I, SMALL)); }
  bool log() { return s.below(2); }
  // positions (starting at 1) in an object
  MV index(const MV &of, Ty t = Ty::D) {
    MV m;
    m.ty = t;
    size_t n = 1 + s.below(matMode ? R * C : 8);
    for (size_t i = 0; i < n; i++)
      m.v.push_back(1.0 + s.below(of.size()));
    return m;
  }
};
inline MV at1(const MV &x, const MV &idx) { // subset with positions
  MV r;
  r.ty = x.ty;
  for (double i : idx.v)
    r.v.push_back(x.v[static_cast<size_t>(i) - 1]);
  return r;
}

} // namespace gen
#endif
