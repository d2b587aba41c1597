// operations and the warnings which they have to write
#include "etrgen.hpp"
#include <functional>
using namespace gen;
namespace {
struct Redirect {
  std::ostream &o;
  std::ostringstream t;
  std::streambuf *old;
  explicit Redirect(std::ostream &o) : o(o), old(o.rdbuf(t.rdbuf())) {}
  ~Redirect() { o.rdbuf(old); }
};
struct Out {
  bool refused = false;
  std::string err, out;
  size_t warnings = 0;
};
template <class F> Out observe(F &&f) {
  Out r;
  Redirect e(std::cerr), o(std::cout);
  size_t before = warningsOfR();
  r.refused = throws(f);
  r.err = e.t.str();
  r.out = o.t.str();
  r.warnings = warningsOfR() - before + (STANDALONE ? !r.err.empty() : 0);
  return r;
}
// performs f and compares the warnings
template <class F> void judge(Ctx &c, const std::string &what, bool expected, F &&f) {
  c.log([&](auto &o) { o << what << (expected ? " (warns)" : " (is silent)"); });
  Out r = observe(f);
  if (r.refused)
    c.fail(what + " is refused");
  if (!r.out.empty())
    c.fail(what + " prints " + r.out);
  if (!STANDALONE && !r.err.empty())
    c.fail(what + " writes to stderr: " + r.err);
  if (expected && !r.warnings)
    c.fail(what + ": no warning");
  if (!expected && r.warnings)
    c.fail(what + ": a warning although everything is used: " + r.err);
  if (expected)
    c.label("warning");
}
// an argument of which only the first element is used
enum A { A_INT, A_DBL, A_VEC, A_IVEC, A_CONST, A_COCA, A_SUB, A_CALC, A_COLON, A_COUNT };
constexpr const char *argName[] = {"int", "double", "variable", "integer variable", "constant variable", "coca", "subset", "calculation", "colon"};
struct Arg {
  int kind;
  double first;
  size_t n;
  bool frac() const { return first != std::trunc(first); }
  std::string text() const { return std::string(argName[kind]) + " " + num(first) + (n > 1 ? " and " + std::to_string(n - 1) + " more" : ""); }
};
Arg genArg(Src &s, double v, bool fraction) {
  Arg a;
  a.kind = (int)s.below(A_COUNT);
  a.n = a.kind <= A_DBL || s.below(2) ? 1 : s.chance(1, 10) ? 3 + s.below(60) : 2 + s.below(2);
  bool real = a.kind != A_INT && a.kind != A_IVEC && a.kind != A_COLON;
  a.first = v + (fraction && real && s.chance(1, 4) ? s.pick({0.5, 0.25, 0.001, 0.999, 1e-10, 1.0 - 1e-10}) : 0.0);
  return a;
}
template <int K, class F> void arg(Src &s, const Arg &a, F &&f) {
  std::vector<double> v{a.first};
  while (v.size() < a.n)
    v.push_back((double)s.below(9));
  if constexpr (K == A_INT) {
    f((int)a.first);
  } else if constexpr (K == A_DBL) {
    f(double(a.first));
  } else if constexpr (K == A_VEC) {
    auto x = make<double>(ref::vec(v));
    f(x);
  } else if constexpr (K == A_IVEC) {
    auto x = make<int>(ref::vec(v));
    f(x);
  } else if constexpr (K == A_CONST) {
    const auto x = make<double>(ref::vec(v));
    f(x);
  } else if constexpr (K == A_COCA) {
    auto x = make<double>(ref::vec(v));
    auto y = etr::coca(x);
    f(y);
  } else if constexpr (K == A_SUB) {
    std::vector<double> pos;
    for (size_t i = 0; i < a.n; i++)
      pos.push_back((double)(a.n - i));
    std::reverse(v.begin(), v.end());
    auto x = make<double>(ref::vec(v));
    auto p = make<double>(ref::vec(pos));
    auto y = etr::subset(x, p);
    f(y);
  } else if constexpr (K == A_CALC) {
    auto x = make<double>(ref::vec(v));
    const double zero = 0.0;
    const auto y = x + zero;
    f(y);
  } else {
    auto y = etr::colon((int)a.first, (int)a.first + (int)a.n - 1);
    f(y);
  }
}
template <class F> void withArg(Src &s, const Arg &a, F &&f) {
  switch (a.kind) {
  case A_INT: return arg<A_INT>(s, a, f);
  case A_DBL: return arg<A_DBL>(s, a, f);
  case A_VEC: return arg<A_VEC>(s, a, f);
  case A_IVEC: return arg<A_IVEC>(s, a, f);
  case A_CONST: return arg<A_CONST>(s, a, f);
  case A_COCA: return arg<A_COCA>(s, a, f);
  case A_SUB: return arg<A_SUB>(s, a, f);
  case A_CALC: return arg<A_CALC>(s, a, f);
  default: return arg<A_COLON>(s, a, f);
  }
}

void matrices(Ctx &c) {
  Src &s = c.s;
  size_t R = genDim(s, 5), C = genDim(s, 5);
  Arg r = genArg(s, (double)R, true), k = genArg(s, (double)C, true);
  bool scalar = s.below(2);
  MV m = genVec(s, R * C, Ty::D, SMALL);
  bool expected = r.n > 1 || k.n > 1 || r.frac() || k.frac();
  c.nontrivial(expected || m.size() > 1);
  std::string what = std::string("matrix(") + (scalar ? "number" : "vector") + ", " + r.text() + ", " + k.text() + ")";
  withArg(s, r, [&](auto &&x) {
    withArg(s, k, [&](auto &&y) {
      judge(c, what, expected, [&]() {
        sexp z;
        if (scalar)
          z = etr::matrix(1.5, std::move(x), std::move(y));
        else
          z = etr::matrix(make<double>(m), std::move(x), std::move(y));
        (void)z;
      });
    });
  });
}

void reps(Ctx &c) {
  Src &s = c.s;
  Arg t = genArg(s, 1.0 + (double)s.below(9), true);
  int content = (int)s.below(4);
  bool expected = t.n > 1 || t.frac();
  MV m = genVec(s, genSize(s, 20), Ty::D, SMALL);
  c.nontrivial(expected || m.size() > 1);
  std::string what = "rep(" + std::string(content == 0 ? "int" : content == 1 ? "double" : content == 2 ? "variable" : "calculation") + ", " + t.text() + ")";
  withArg(s, t, [&](auto &&n) {
    judge(c, what, expected, [&]() {
      auto x = make<double>(m);
      sexp z;
      switch (content) {
      case 0: z = etr::rep(3, n); break;
      case 1: z = etr::rep(2.5, n); break;
      case 2: z = etr::rep(x, n); break;
      default: z = etr::rep(x * 2.0, n);
      }
    });
  });
}

template <class T> constexpr bool isSub = std::is_same_v<std::remove_cvref_t<T>, decltype(etr::subset(std::declval<sexp &>(), std::declval<sexp &>()))>;
void colons(Ctx &c) {
  Src &s = c.s;
  Arg a = genArg(s, (double)s.below(40) - 20, false), b = genArg(s, (double)s.below(40) - 20, false);
  for (Arg *p : {&a, &b}) // subsets are not accepted
    if (p->kind == A_SUB)
      p->kind = A_CALC;
  bool expected = a.n > 1 || b.n > 1;
  c.nontrivial(expected || a.first != b.first);
  std::string what = "colon(" + a.text() + ", " + b.text() + ")";
  withArg(s, a, [&](auto &&x) {
    withArg(s, b, [&](auto &&y) {
      if constexpr (!isSub<decltype(x)> && !isSub<decltype(y)>)
      judge(c, what, expected, [&]() {
        sexp z;
        z = etr::colon(x, y);
      });
    });
  });
}

void times(Ctx &c) {
  Src &s = c.s;
  size_t n = 4 + s.below(8);
  std::vector<double> tv, yv;
  for (size_t i = 0; i < n; i++) {
    tv.push_back((i ? tv.back() : (double)s.below(4)) + (i ? 1.0 + (double)s.below(3) : 0.0));
    yv.push_back(genSmall(s));
  }
  Arg t = genArg(s, tv[0] + (double)s.below((uint64_t)(tv.back() - tv[0])), true);
  if (t.kind == A_IVEC || t.kind == A_COLON) // times are numeric
    t.kind = A_VEC;
  bool linear = t.n == 1 && s.below(3) == 0;
  c.nontrivial();
  std::string what = std::string(linear ? "li(" : "cmr(") + t.text() + ", times, values)";
  withArg(s, t, [&](auto &&x) {
    using X = std::remove_cvref_t<decltype(x)>;
    if constexpr (!std::is_same_v<X, etr::Vec<int>> && !std::is_same_v<X, decltype(etr::colon(1, 2))>)
      judge(c, what, t.n > 1, [&]() {
        auto a = make<double>(ref::vec(tv)), b = make<double>(ref::vec(yv));
        volatile double z = linear ? etr::li(x, a, b) : etr::cmr(x, a, b);
        (void)z;
      });
  });
}

// a logical condition
void conditions(Ctx &c) {
  Src &s = c.s;
  overflow() = false;
  int k = (int)s.below(K_COUNT);
  Shape sh = s.chance(1, 3) ? vecShape(1) : vecShape(genSize(s, 40));
  if (canBeMatrix(k) && s.chance(1, 3))
    sh = matShape(genDim(s, 4), genDim(s, 4));
  int how = (int)s.below(6);
  withOperand(s, k, sh, SMALL, [&](auto &&x, const MV &m) {
    if (overflow())
      return;
    using X = std::remove_cvref_t<decltype(x)>;
    if constexpr (!std::is_arithmetic_v<X>) {
      bool expected = m.size() != 1;
      c.nontrivial(expected);
      std::string what = std::string("condition on ") + kindName(k) + " of " + std::to_string(m.size()) + " elements, form " + std::to_string(how);
      volatile int z = 0;
      switch (how) {
      case 0:
        return judge(c, what, expected, [&]() {
          if (x < 1.5)
            z = z + 1;
        });
      case 1:
        return judge(c, what, expected, [&]() {
          while (x == 1000.0) {
            z = z + 1;
            break;
          }
        });
      case 2:
        return judge(c, what, expected, [&]() {
          etr::Vec<bool> b;
          b = x >= 1.0;
          z = b ? 1 : 2;
        });
      case 3:
        return judge(c, what, expected, [&]() { z = (x != x) ? 1 : 2; });
      case 4:
        return judge(c, what, expected, [&]() {
          bool b = 2.0 > x;
          z = b;
        });
      default: // a single element of it
        size_t i = 1 + s.below(m.size());
        return judge(c, what + " (one element)", false, [&]() {
          sexp y;
          y = x;
          if (etr::subset(y, (int)i) < 2)
            z = z + 1;
          if (etr::at(y, (int)i) < 2)
            z = z + 1;
        });
      }
    }
  });
}

// positions and sizes
void positions(Ctx &c) {
  Src &s = c.s;
  size_t R = genDim(s, 5), C = genDim(s, 5);
  MV m = genMat(s, R, C, Ty::D, SMALL);
  int how = (int)s.below(11);
  bool matrix = how >= 3 && how < 8;
  double f = s.below(2) ? s.pick({0.5, 0.25, 0.001, 0.999, 1e-10, 1.0 - 1e-10}) : 0.0, g = s.below(2) ? s.pick({0.5, 0.75, 1e-9}) : 0.0;
  double r = 1.0 + (double)s.below(R) + f, k = 1.0 + (double)s.below(C) + g;
  auto x = make<double>(m);
  auto rows = make<double>(ref::vec({1.0, (double)R})), cols = make<double>(ref::vec({1.0}));
  etr::Vec<bool> every;
  every = rows > 0.0;
  std::string what = "form " + std::to_string(how) + " of a subset with " + num(r) + (matrix ? " and " + num(k) : "") + " of " + str(m);
  sexp z;
  switch (how) {
  case 0: c.nontrivial(f > 0); return judge(c, what, f > 0, [&]() { z = etr::subset(x, r); });
  case 1: c.nontrivial(f > 0); return judge(c, what, f > 0, [&]() { etr::subset(x, r) = 1.5; });
  case 2: c.nontrivial(true); return judge(c, what + " (vector)", false, [&]() { z = etr::subset(x, rows); });
  case 3: c.nontrivial(true); return judge(c, what, f > 0 || g > 0, [&]() { z = etr::subset(x, r, k); });
  case 4: c.nontrivial(true); return judge(c, what, f > 0 || g > 0, [&]() { etr::subset(x, r, k) = 2.0; });
  case 5: c.nontrivial(true); return judge(c, what + " (true)", f > 0, [&]() { z = etr::subset(x, r, true); });
  case 6: c.nontrivial(true); return judge(c, what + " (vector)", f > 0, [&]() { z = etr::subset(x, r, cols); });
  case 7: c.nontrivial(true); return judge(c, what + " (vectors)", false, [&]() { z = etr::subset(x, rows, cols); etr::subset(x, true, cols) = 1.0; z = etr::subset(x, every); });
  case 9: c.nontrivial(f > 0); return judge(c, "vector_integer(" + num(r) + ")", f > 0, [&]() { z = etr::vector_integer(r); });
  case 10: c.nontrivial(f > 0); return judge(c, "vector_logical(" + num(r) + ")", f > 0, [&]() { z = etr::vector_logical(r); });
  default: c.nontrivial(f > 0); return judge(c, "vector_numeric(" + num(r) + ")", f > 0, [&]() { z = etr::vector_numeric(r); });
  }
}

// everything else is silent
void silent(Ctx &c) {
  Src &s = c.s;
  overflow() = false;
  int k = (int)s.below(K_COUNT);
  Shape sh = vecShape(genSize(s, 40));
  if (canBeMatrix(k) && s.chance(1, 3))
    sh = matShape(genDim(s, 4), genDim(s, 4));
  int how = (int)s.below(16), cls = s.pick({SMALL, gen::REAL, SPECIAL});
  withOperand(s, k, sh, cls, [&](auto &&x, const MV &m) {
    using X = std::remove_cvref_t<decltype(x)>;
    if (overflow())
      return;
    c.nontrivial(m.size() > 1);
    std::string what = "operation " + std::to_string(how) + " with " + kindName(k) + " " + str(m);
    auto v = make<double>(ref::vec({1.5, -2.0, 0.0}));
    sexp y;
    switch (how) {
    case 0: return judge(c, what, false, [&]() { y = x; });
    case 1: return judge(c, what, false, [&]() { y = x + v; });
    case 2: return judge(c, what, false, [&]() { y = v / x - x * 2.0; });
    case 3: return judge(c, what, false, [&]() { y = x == v; });
    case 4: return judge(c, what, false, [&]() { sexp w; w = x; y = etr::coca(w, 1.5, w); });
    case 5: return judge(c, what, false, [&]() { sexp w; w = x; v = etr::coca(v, w); v = v; });
    case 6: return judge(c, what, false, [&]() { y = v; y = y * x; y = etr::subset(y, 1); });
    case 7: return judge(c, what, false, [&]() { etr::subset(v, 2) = 4; y = v < x; });
    case 8:
      if constexpr (!std::is_arithmetic_v<X>)
        return judge(c, what, false, [&]() { y = etr::sinus(x) + etr::exp(-x) + etr::sqroot(x); });
      return;
    case 9:
      if constexpr (!std::is_arithmetic_v<X>)
        return judge(c, what, false, [&]() { y = (double)x.size(); if (m.im) y = etr::dim(x); });
      return;
    case 10:
      if constexpr (!std::is_arithmetic_v<X>)
        return judge(c, what, false, [&]() { y = etr::isNA(sexp(x + 0.0)); y = etr::isInf(sexp(x + 0.0)); });
      return;
    case 11:
      if constexpr (!std::is_arithmetic_v<X>)
        return judge(c, what, false, [&]() { const X &w = x; double sum = 0; for (size_t i = 0; i < x.size(); i++) sum += w[i]; volatile double z = sum; (void)z; });
      return;
    case 12: return judge(c, what, false, [&]() { etr::Vec<int> i; etr::Vec<bool> b; b = x > 0; i = b; });
    case 13: return judge(c, what, false, [&]() { y = etr::rep(x, 2); });
    case 14: return judge(c, what, false, [&]() { sexp a(make<double>(ref::vec(m.v))); a = a - x; sexp b(a); b = b; });
    default:
      return judge(c, what, false, [&]() {
        std::vector<double> mem(m.size() + 3, 1.0);
        BorrowPtr b(mem.data(), mem.size());
        b = x;
        b = b + 1;
      });
    }
  });
}

// constants of programs with derivatives
void derivatives(Ctx &c) {
  Src &s = c.s;
  etr::AllVars<3, 2, 0, 4> av(0, 0);
  MV m = genVec(s, 1 + s.below(6), Ty::D, SMALL);
  auto x0 = make<double>(m), x1 = make<double>(m), x2 = make<double>(m);
  av.initBuffer(x0, x1, x2);
  std::vector<double> mem0 = m.v, mem1 = m.v;
  BorrowPtr y0(mem0.data(), mem0.size()), y1(mem1.data(), mem1.size());
  av.initBorrow(y0, y1);
  Arg a = genArg(s, (double)s.below(20) - 10, false), b = genArg(s, (double)s.below(20) - 10, false);
  for (Arg *p : {&a, &b}) // subsets are not accepted
    if (p->kind == A_SUB)
      p->kind = A_CALC;
  bool expected = a.n > 1 || b.n > 1;
  c.nontrivial(true);
  if (s.chance(1, 4)) {
    double n = 1.0 + (double)s.below(9) + (s.below(2) ? s.pick({0.5, 0.01, 1e-12}) : 0.0);
    return judge(c, "vector_numeric<0>(av, " + num(n) + ")", n != std::trunc(n), [&]() { (void)etr::vector_numeric<0>(av, n); });
  }
  std::string what = "colon<1>(av, " + a.text() + ", " + b.text() + ")";
  withArg(s, a, [&](auto &&x) {
    withArg(s, b, [&](auto &&y) {
      if constexpr (!isSub<decltype(x)> && !isSub<decltype(y)>)
        judge(c, what, expected, [&]() { (void)etr::colon<1>(av, x, y); });
    });
  });
}
} // namespace
