// at(): access to one element
#include "etr_pch.hpp"
#include "idxgen.hpp"
#include <memory>
using namespace gen;

// calls f with a position of each type (counted from 1)
template <class F> static std::string position(Src &s, size_t i, F &&f) {
  switch (s.below(8)) {
  case 0: {
    double p = (double)i + 1.0;
    f(p);
    return num(p);
  }
  case 1: { // truncated
    double p = (double)i + 1.0 + s.pick({0.25, 0.5, 0.75, 0.999});
    f(p);
    return num(p);
  }
  case 2: {
    size_t p = i + 1;
    f(p);
    return std::to_string(p) + "u";
  }
  case 3: {
    long p = (long)i + 1;
    f(p);
    return std::to_string(p) + "L";
  }
  default: {
    int p = (int)i + 1;
    f(p);
    return std::to_string(p);
  }
  }
}
// calls f with a position which does not exist if there are n elements
template <class F> static std::string outside(Src &s, size_t n, F &&f) {
  switch (s.below(6)) {
  case 0: { // truncated to 0
    double p = s.pick({0.0, 0.25, 0.5, 0.999, -0.5, -0.999});
    f(p);
    return num(p);
  }
  case 1: {
    double p = -1.0 * (double)(1 + s.below(n + 2)) - s.pick({0.0, 0.5});
    f(p);
    return num(p);
  }
  case 2: {
    double p = (double)n + 1.0 + s.pick({0.0, 0.5, 1.0, 1000.0});
    f(p);
    return num(p);
  }
  case 3: {
    int p = (int)n + 1 + s.pick({0, 1, 2, 1000});
    f(p);
    return std::to_string(p);
  }
  case 4: {
    int p = -(int)s.below(n + 3);
    f(p);
    return std::to_string(p);
  }
  default: {
    size_t p = s.below(2) ? 0 : n + 1;
    f(p);
    return std::to_string(p) + "u";
  }
  }
}
// reads and writes, all elements are compared after each step
template <class X> static void steps(Ctx &c, X &x, MV &m, Ty ty, const std::string &name, std::string &t, int n) {
  Src &s = c.s;
  using T = std::remove_cvref_t<decltype(etr::at(x, 1))>;
  for (int k = 0; k < n; k++) {
    bool two = m.im && s.below(2);
    size_t p = s.below(m.size());
    double v = genOf(s, ty, SMALL);
    int how = (int)s.below(5);
    std::string pos;
    if (s.below(6) == 0) { // it has to be refused
      bool r = true;
      if (m.im && s.below(2)) {
        int which = (int)s.below(3);
        auto rows = [&](auto f) { return which != 1 ? outside(s, m.nr, f) : position(s, p % m.nr, f); };
        auto cols = [&](auto f) { return which != 0 ? outside(s, m.nc, f) : position(s, p / m.nr, f); };
        std::string p2;
        pos = rows([&](auto i) { p2 = cols([&](auto j) { r = throws([&]() { etr::at(x, i, j) = (T)v; }); }); });
        pos += ", column " + p2;
      } else {
        pos = outside(s, m.size(), [&](auto i) { r = throws([&]() { etr::at(x, i) = (T)v; }); });
      }
      t += "refused at " + pos + "; ";
      if (!r)
        c.fail(name + " " + str(m) + ": a write at " + pos + " is accepted");
      expectVec(c, x, m, name + " after " + t);
      continue;
    }
    auto act = [&](auto &&ref) { // ref() is the element
      switch (how) {
      case 0: {
        double got = (double)ref();
        if (!same(got, m.v[p]))
          c.fail(t + name + ": reads " + num(got) + " instead of " + num(m.v[p]) + " of " + str(m));
        break;
      }
      case 1:
      case 2:
        ref() = (T)v;
        m.v[p] = v;
        break;
      case 3: { // changes the present value
        if (ty == Ty::B) {
          ref() = !ref();
          m.v[p] = m.v[p] == 0;
        } else {
          ref() += (T)v;
          m.v[p] += v;
        }
        break;
      }
      case 4: { // a reference
        auto &r = ref();
        r = (T)v;
        m.v[p] = v;
        if (&r != &ref())
          c.fail(t + name + ": is another element at the second call");
        break;
      }
      }
    };
    auto constant = [&](auto &&get) { // the element of the same variable which is seen as a constant
      const auto &cx = x;
      auto &e = get(cx);
      if (!same((double)e, m.v[p]))
        c.fail(t + name + ": reads " + num((double)e) + " instead of " + num(m.v[p]) + " of the constant " + str(m));
      if (std::is_assignable_v<decltype(e), T>)
        c.fail(t + name + ": elements of constants can be changed");
    };
    if (two) {
      pos = position(s, p % m.nr, [&](auto r) {
        pos = position(s, p / m.nr, [&](auto q) {
          constant([&](auto &y) -> auto & { return etr::at(y, r, q); });
          act([&]() -> auto & { return etr::at(x, r, q); });
        });
      }) + ", column " + std::to_string(p / m.nr + 1);
    } else {
      pos = position(s, p, [&](auto i) {
        constant([&](auto &y) -> auto & { return etr::at(y, i); });
        act([&]() -> auto & { return etr::at(x, i); });
      });
    }
    t += std::string(how == 0 ? "read" : "write") + " at " + pos + "; ";
    expectVec(c, x, m, name + " after " + t);
  }
}
template <class T> static void variable(Ctx &c) {
  Src &s = c.s;
  const Ty ty = tyOf<T>();
  bool mat = s.below(2);
  MV m = mat ? genMat(s, genDim(s, 7), genDim(s, 7), ty, SMALL) : genVec(s, genSize(s, 80), ty, SMALL);
  auto x = make<T>(m);
  // another variable of the same content is independent
  etr::Vec<T> y;
  y = x;
  MV my = m;
  std::string t;
  int n = 1 + (int)s.below(10);
  MV start = m;
  if (s.below(4) == 0) { // the variable had another size before
    MV small = genVec(s, 1 + s.below(m.size()), ty, SMALL);
    auto z = make<T>(small);
    x = z;
    m = small;
    t = "reused; ";
  }
  steps(c, x, m, ty, "variable", t, n);
  expectVec(c, y, my, "an independent variable after " + t);
  const auto &cx = x;
  size_t p = s.below(m.size());
  position(s, p, [&](auto i) {
    if (!same((double)etr::at(cx, i), m.v[p]))
      c.fail("constant variable " + str(m) + ": element " + std::to_string(p + 1) + " is " + num((double)etr::at(cx, i)));
  });
  if (m.im)
    position(s, p % m.nr, [&](auto r) {
      position(s, p / m.nr, [&](auto q) {
        if (!same((double)etr::at(cx, r, q), m.v[p]))
          c.fail("constant matrix " + str(m) + ": element " + std::to_string(p + 1) + " is " + num((double)etr::at(cx, r, q)));
      });
    });
  c.log([&](auto &o) { o << str(start) << ": " << t; });
  c.label(mat ? "matrix" : "vector");
  c.nontrivial(start.size() > 1 && n > 1);
}
static void borrowed(Ctx &c) {
  Src &s = c.s;
  MV m = genVec(s, genSize(s, 60), Ty::D, SMALL);
  std::vector<double> mem(m.size() + 4, -99.5);
  std::copy(m.v.begin(), m.v.end(), mem.begin() + 2);
  BorrowPtr x(mem.data() + 2, m.size());
  std::string t;
  int n = 1 + (int)s.below(10);
  if (s.below(2)) { // a matrix in borrowed memory
    size_t r = 1 + s.below(m.size());
    size_t q = m.size() / r;
    MV mm = genMat(s, r, q, Ty::D, SMALL);
    auto y = make<double>(mm);
    x = y;
    m = mm;
  }
  MV start = m;
  steps(c, x, m, Ty::D, "borrowed", t, n);
  for (size_t i = 0; i < m.size(); i++)
    if (!same(mem[i + 2], m.v[i]))
      c.fail("the borrowed memory after " + t);
  if (mem[0] != -99.5 || mem[1] != -99.5 || mem[mem.size() - 1] != -99.5 || mem[mem.size() - 2] != -99.5)
    c.fail("the memory around the borrowed one has changed after " + t);
  c.log([&](auto &o) { o << "borrowed " << str(start) << ": " << t; });
  c.nontrivial(start.size() > 1 && n > 1);
}
// elements of results which are matrices
template <int K> static void result(Ctx &c) {
  Src &s = c.s;
  overflow() = false;
  Shape sh = matShape(genDim(s, 6), genDim(s, 6));
  operand<K>(s, sh, SMALL, [&](auto &x, const MV &m) {
    size_t p = s.below(m.size());
    std::string w = std::string(kindName(K)) + " " + str(m) + ", element " + std::to_string(p + 1);
    c.log([&](auto &o) { o << "at(" << w << ")"; });
    c.nontrivial(m.size() > 1);
    position(s, p % m.nr, [&](auto r) {
      position(s, p / m.nr, [&](auto q) {
        double got = (double)etr::at(std::move(x), r, q);
        if (!same(got, m.v[p]))
          c.fail(w + " is " + num(got) + " instead of " + num(m.v[p]));
      });
    });
    expectVec(c, x, m, w + ", afterwards");
  });
}
// the elements are the same as those of a subset
static void agrees(Ctx &c) {
  Src &s = c.s;
  MV m = genMat(s, genDim(s, 6), genDim(s, 6), Ty::D, SMALL);
  auto x = make<double>(m);
  size_t p = s.below(m.size());
  int i = (int)p + 1, r = (int)(p % m.nr) + 1, q = (int)(p / m.nr) + 1;
  c.log([&](auto &o) { o << "element " << i << " of " << str(m); });
  c.nontrivial(m.size() > 1);
  double a = etr::at(x, i), b = etr::at(x, r, q), d = x[p];
  sexp e, f;
  e = x(i);
  f = x(r, q);
  if (a != d || b != d || e[0] != d || f[0] != d || e.size() != 1 || f.size() != 1)
    c.fail("element " + std::to_string(i) + " of " + str(m) + " differs: at(i) " + num(a) + " at(r, c) " + num(b) + " (i) " + num(e[0]) + " (r, c) " + num(f[0]));
  // exchange of two elements, used in every sort algorithm
  size_t p2 = s.below(m.size());
  int j = (int)p2 + 1;
  double tmp = etr::at(x, i);
  etr::at(x, i) = etr::at(x, j);
  etr::at(x, j) = tmp;
  std::swap(m.v[p], m.v[p2]);
  expectVec(c, x, m, "exchange of elements " + std::to_string(i) + " and " + std::to_string(j));
  // an element in a calculation
  double g = genSmall(s);
  x = x * etr::at(x, i) + g;
  double f0 = m.v[p];
  for (double &v : m.v)
    v = v * f0 + g;
  expectVec(c, x, m, "x = x * at(x, i) + g");
}
