// New variables, created in every way the library offers, and what can happen
// to them afterwards.
#ifndef CTORS_HPP
#define CTORS_HPP
#include "etrgen.hpp"

namespace gen {

inline bool fits(const MV &m, Ty t) { // converting to the type t is defined
  if (t == Ty::I)
    for (double v : m.v)
      if (!(std::fabs(v) < 2147483647.0))
        return false;
  return true;
}
template <class U> inline MV genSource(Src &s, bool im, size_t maxN = 40) {
  MV m = im ? genMat(s, genDim(s), genDim(s), tyOf<U>(), s.pick({SMALL, REAL}))
            : genVec(s, genSize(s, maxN), tyOf<U>(), s.pick({SMALL, REAL}));
  for (double &v : m.v)
    if (!(std::fabs(v) < 1e9))
      v = 3;
  return m;
}
constexpr int N_CTORS = 18;

// f(variable, model, text); the source of the content has type U
template <class T, class U, class F> void createFrom(Src &s, int how, F &&f) {
  const Ty ty = tyOf<T>();
  const std::string un = std::is_same_v<U, double> ? "numeric " : std::is_same_v<U, int> ? "integer " : "logical ";
  auto out = [&](auto &x, MV m, const std::string &t) {
    m = convTo(m, ty);
    m.scalar = false;
    f(x, m, t);
  };
  switch (how) {
  case 0: { // pointer to memory
    MV m = genSource<double>(s, false);
    std::vector<double> mem = m.v;
    etr::Vec<T> x(mem.data(), size_t{m.size()});
    for (double &v : mem) // copied
      v = -5;
    out(x, m, "Vec(pointer, " + std::to_string(m.size()) + ")");
    return;
  }
  case 1: {
    MV m = genSource<double>(s, true);
    std::vector<double> mem = m.v;
    etr::Vec<T> x(mem.data(), size_t{m.nr}, size_t{m.nc});
    for (double &v : mem)
      v = -5;
    out(x, m, "Vec(pointer, rows, columns) of " + str(m));
    return;
  }
  case 2: {
    size_t r = genDim(s), q = genDim(s);
    double v = genSmall(s);
    etr::Vec<T> x(size_t{r}, size_t{q}, +v);
    out(x, mat(std::vector<double>(r * q, v), r, q), "Vec(" + std::to_string(r) + ", " + std::to_string(q) + ", " + num(v) + ")");
    return;
  }
  case 3: {
    MV m = genSource<T>(s, true);
    etr::Vec<T> x(size_t{m.nr}, size_t{m.nc});
    load(x, m);
    out(x, m, "Vec(rows, columns), filled with " + str(m));
    return;
  }
  case 4:
  case 5: {
    MV m = genSource<T>(s, how == 5);
    auto y = make<T>(m);
    etr::Vec<T> x(y);
    y[0] = T(m.v[0] == 0 ? 1 : 0);
    y = T(1);
    out(x, m, "copy of " + str(m));
    return;
  }
  case 6:
  case 7: { // from an r value of another or the same type
    MV m = genSource<U>(s, how == 7);
    auto y = make<U>(m);
    etr::Vec<T> x(std::move(y));
    out(x, m, "Vec(move(" + un + str(m) + "))");
    return;
  }
  case 8: {
    MV m = genSource<U>(s, s.below(2));
    auto y = make<U>(m);
    etr::Vec<T> x = etr::coca(y);
    m.im = false;
    out(x, m, "Vec = coca(" + un + str(m) + ")");
    return;
  }
  case 9: {
    size_t r = genDim(s), q = genDim(s);
    U v = static_cast<U>(genOf(s, tyOf<U>(), SMALL));
    etr::Vec<T> x = etr::matrix(+v, size_t{r}, size_t{q});
    MV m = mat(std::vector<double>(r * q, static_cast<double>(v)), r, q);
    out(x, m, "Vec = matrix(" + un + num(static_cast<double>(v)) + ", " + std::to_string(r) + ", " + std::to_string(q) + ")");
    return;
  }
  case 10: {
    MV m = genSource<U>(s, true);
    auto y = make<U>(ref::vec(m.v));
    etr::Vec<T> x = etr::matrix(etr::coca(y), size_t{m.nr}, size_t{m.nc});
    out(x, m, "Vec = matrix(" + un + str(m) + ")");
    return;
  }
  case 11: {
    MV m = genSource<U>(s, false, 20);
    auto y = make<U>(m);
    int n = 1 + static_cast<int>(s.below(3));
    etr::Vec<T> x = etr::rep(y, n);
    MV r = m;
    for (int i = 1; i < n; i++)
      r.v.insert(r.v.end(), m.v.begin(), m.v.end());
    out(x, r, "Vec = rep(" + un + str(m) + ", " + std::to_string(n) + ")");
    return;
  }
  case 12: {
    int a = static_cast<int>(s.below(21)) - 10, n = static_cast<int>(s.below(12));
    etr::Vec<T> x = etr::colon(+a, a + n);
    MV m;
    for (int i = 0; i <= n; i++)
      m.v.push_back(a + i);
    out(x, m, "Vec = " + std::to_string(a) + ":" + std::to_string(a + n));
    return;
  }
  case 13: { // from a calculation
    MV m = genSource<U>(s, s.below(2));
    MV h = genVec(s, 1 + s.below(m.size()), tyOf<U>(), SMALL);
    MV w = apply2(ADD, m, h);
    auto y = make<U>(m);
    auto z = make<U>(h);
    etr::Vec<T> x = y + z;
    out(x, w, "Vec = " + un + str(m) + " + " + str(h));
    return;
  }
  case 14: {
    MV m = genSource<U>(s, s.below(2));
    double h = 0.75;
    auto y = make<U>(m);
    etr::Vec<T> x(y > h);
    out(x, apply2(GT, m, scal(h)), "Vec(" + un + str(m) + " > 0.75)");
    return;
  }
  case 15: { // returned
    MV m = genSource<T>(s, s.below(2));
    auto y = make<T>(m);
    auto g = [](etr::Vec<T> p) { return p; };
    auto x = g(y);
    out(x, m, "f(" + str(m) + ")");
    return;
  }
  case 16: { // one element
    double v = genOf(s, tyOf<U>(), SMALL);
    etr::Vec<T> x(static_cast<U>(v));
    out(x, ref::vec({v}), "Vec(" + un + num(v) + ")");
    return;
  }
  case 17: {
    MV m = genSource<U>(s, false);
    etr::Buffer<U> y(m.size());
    for (size_t i = 0; i < m.size(); i++)
      y[i] = static_cast<U>(m.v[i]);
    if constexpr (std::is_same_v<T, U>) {
      etr::Vec<T> x(y);
      y[0] = U(m.v[0] == 0 ? 1 : 0);
      out(x, m, "Vec(storage of " + un + str(m) + ")");
    }
    return;
  }
  }
}
template <class T, class F> void withNew(Src &s, F &&f) {
  int how = static_cast<int>(s.below(N_CTORS));
  switch (s.below(3)) {
  case 0:
    createFrom<T, double>(s, how, f);
    break;
  case 1:
    createFrom<T, int>(s, how, f);
    break;
  case 2:
    createFrom<T, bool>(s, how, f);
    break;
  }
}

// a short life of a new variable
template <class T> void exercise(Ctx &c, etr::Vec<T> &x, MV m, std::string what) {
  Src &s = c.s;
  const Ty ty = tyOf<T>();
  expectVec(c, x, m, what);
  for (int k = 0, n = static_cast<int>(s.below(5)); k < n; k++) {
    switch (s.below(9)) {
    case 0: {
      int g = 1 + static_cast<int>(s.below(4));
      for (int i = 0; i < g; i++) {
        x = etr::coca(x, T(i % 2));
        m.v.push_back(conv(i % 2, ty));
      }
      m.im = false;
      what += "; " + std::to_string(g) + " elements appended";
      break;
    }
    case 1: {
      size_t p = s.below(m.size());
      double v = genOf(s, ty, SMALL);
      x[p] = static_cast<T>(v);
      m.v[p] = v;
      what += "; x[" + std::to_string(p) + "] = " + num(v);
      break;
    }
    case 2: {
      size_t p = s.below(m.size());
      double v = genOf(s, ty, SMALL);
      etr::subset(x, +static_cast<int>(p + 1)) = static_cast<T>(v);
      m.v[p] = v;
      what += "; x(" + std::to_string(p + 1) + ") = " + num(v);
      break;
    }
    case 3: {
      MV q = genVec(s, 1 + s.below(m.size() + 3), ty, SMALL);
      auto y = make<T>(q);
      x = y;
      m = q;
      what += "; x = " + str(q);
      break;
    }
    case 4: {
      MV q = genMat(s, genDim(s), genDim(s), ty, SMALL);
      auto y = make<T>(q);
      x = y;
      m = q;
      what += "; x = " + str(q);
      break;
    }
    case 5:
      x = x;
      what += "; x = x";
      break;
    case 6: {
      etr::Vec<T> y(x);
      MV old = m;
      size_t p = s.below(m.size());
      x[p] = T(m.v[p] == 0 ? 1 : 0);
      m.v[p] = m.v[p] == 0 ? 1 : 0;
      expectVec(c, y, old, what + ": copy after a change of the original");
      y = etr::coca(y, y);
      what += "; copied and changed";
      break;
    }
    case 7: {
      double v = genOf(s, ty, SMALL);
      x = static_cast<T>(v);
      m = ref::vec({v}, ty);
      what += "; x = " + num(v);
      break;
    }
    case 8: {
      size_t n2 = m.size();
      x = etr::subset(x, etr::colon(static_cast<int>(n2), 1));
      std::reverse(m.v.begin(), m.v.end());
      m.im = false;
      what += "; reversed";
      break;
    }
    }
    expectVec(c, x, m, what);
  }
}
template <class T> void newVariable(Ctx &c) {
  overflow() = false;
  withNew<T>(c.s, [&](auto &x, const MV &m, const std::string &text) {
    c.log([&](auto &o) { o << text; });
    c.label(m.im ? "new matrix" : "new vector");
    c.nontrivial(m.size() > 1);
    exercise<T>(c, x, m, text);
  });
}

} // namespace gen
#endif
