// conversions between numeric, integer and logical
#include "etr_pch.hpp"
#include "idxgen.hpp"
#include <memory>
using namespace gen;

// numbers of which the conversion to an integer is defined
static bool convertible(const MV &m, Ty t) {
  if (t == Ty::I)
    for (double x : m.v)
      if (!(std::fabs(x) < 2147483647.0))
        return false;
  return true;
}
static double genConv(Src &s, Ty t) { // values at which conversions differ
  if (t == Ty::B)
    return (double)s.below(2);
  if (t == Ty::I)
    return s.pick({0.0, 1.0, -1.0, 2.0, 7.0, -3.0, 2147483647.0, -2147483648.0, 256.0, 65536.0});
  if (s.below(4) == 0)
    return genReal(s);
  return s.pick({0.0, -0.0, 0.5, -0.5, 0.999999999, -0.999999999, 1.0, -1.0, 1.5, -1.5, 2.5, 2.999999, -2.999999,
                 1e-300, -1e-300, 255.9, 256.0, 1e6 + 0.5, 2147483646.5, -2147483646.5, 1e-9, 4.9e-324, 65536.25, 7.75});
}
static MV genConvShape(Src &s, const Shape &sh, Ty t) {
  MV m = genShape(s, sh, t, SMALL);
  for (double &x : m.v)
    x = genConv(s, t);
  return m;
}
template <class T> static void before(Src &s, etr::Vec<T> &x) { // the target is used already
  switch (s.below(4)) {
  case 0:
    break;
  case 1: {
    auto y = make<T>(genVec(s, genSize(s, 40), tyOf<T>(), SMALL));
    x = y;
    break;
  }
  case 2: {
    auto y = make<T>(genMat(s, genDim(s, 4), genDim(s, 4), tyOf<T>(), SMALL));
    x = y;
    break;
  }
  case 3:
    x = T(1);
    break;
  }
}
// assigns x to targets of the type T
template <class T, class X> static void assigned(Ctx &c, X &&x, const MV &m, const std::string &from) {
  Src &s = c.s;
  const Ty t = tyOf<T>();
  static const char *tn[] = {"logical", "integer", "numeric"};
  if (!convertible(m, t))
    return;
  MV want = convTo(m, t);
  want.scalar = false;
  etr::Vec<T> y;
  before(s, y);
  const std::string w = std::string(tn[(int)t]) + " = " + from + " " + str(m);
  y = x;
  expectVec(c, y, want, w);
  for (size_t i = 0; i < m.size(); i++)
    if ((double)etr::at(y, (int)i + 1) != want.v[i])
      c.fail(w + ": element " + std::to_string(i + 1) + " has a value which is no " + tn[(int)t]);
  // twice is the same as once
  etr::Vec<T> z;
  z = y;
  expectVec(c, z, want, w + ", copied");
  // written into a part of a variable
  MV big = genVec(s, m.size() + s.below(4), t, SMALL);
  auto b = make<T>(big);
  std::vector<double> pos;
  for (size_t i = 0; i < m.size(); i++)
    pos.push_back(1.0 + (double)((i * 7 + 3) % big.size()));
  auto iv = make<double>(ref::vec(pos));
  b(iv) = x;
  MV after = big;
  for (size_t i = 0; i < m.size(); i++)
    after.v[(size_t)pos[i] - 1] = want.v[m.scalar ? 0 : i];
  expectVec(c, b, after, std::string("part of a ") + tn[(int)t] + " variable = " + from + " " + str(m));
}
template <class X> static void allTargets(Ctx &c, X &&x, const MV &m, const std::string &from) {
  assigned<double>(c, x, m, from);
  assigned<int>(c, x, m, from);
  assigned<bool>(c, x, m, from);
  // borrowed memory
  std::vector<double> mem(m.size() + c.s.below(3), 0.0);
  BorrowPtr b(mem.data(), mem.size());
  b = x;
  MV want = m;
  want.scalar = false;
  expectVec(c, b, want, "borrowed = " + from + " " + str(m));
  for (size_t i = 0; i < m.size(); i++)
    if (!same(mem[i], m.v[i]))
      c.fail("borrowed memory = " + from);
}
template <int K> static void kind(Ctx &c) {
  Src &s = c.s;
  overflow() = false;
  Shape sh = vecShape(genSize(s, 60));
  if (canBeMatrix(K) && s.chance(1, 3))
    sh = matShape(genDim(s, 5), genDim(s, 5));
  auto run = [&](auto &&x, const MV &m) {
    c.log([&](auto &o) { o << kindName(K) << " " << str(m) << " assigned to all types"; });
    c.nontrivial(m.size() > 1 || m.scalar);
    c.label(kindName(K));
    allTargets(c, x, m, kindName(K));
  };
  if constexpr (K == K_NUM) {
    MV m = genConvShape(s, sh, Ty::D);
    auto x = make<double>(m);
    run(x, m);
  } else if constexpr (K == K_INTVEC) {
    MV m = genConvShape(s, sh, Ty::I);
    auto x = make<int>(m);
    run(x, m);
  } else if constexpr (K == K_BOOLVEC) {
    MV m = genConvShape(s, sh, Ty::B);
    auto x = make<bool>(m);
    run(x, m);
  } else if constexpr (K == K_DBL) {
    double d = genConv(s, Ty::D);
    run(d, scal(d));
  } else if constexpr (K == K_INT) {
    int d = (int)genConv(s, Ty::I);
    run(d, scal(d, Ty::I));
  } else if constexpr (K == K_BOOL) {
    bool d = s.below(2);
    run(d, scal(d, Ty::B));
  } else if constexpr (K == K_BORROW) {
    MV m = genConvShape(s, sh, Ty::D);
    std::vector<double> mem = m.v;
    if (m.im) {
      BorrowPtr x(mem.data(), m.nr, m.nc);
      run(x, m);
    } else {
      BorrowPtr x(mem.data(), mem.size());
      run(x, m);
    }
  } else
    operand<K>(s, sh, s.pick({SMALL, REAL}), run);
}
// subsets, function results and calculations of each type
template <class T> static void derived(Ctx &c) {
  Src &s = c.s;
  MV m = genConvShape(s, vecShape(1 + s.below(12)), tyOf<T>());
  auto x = make<T>(m);
  MV p;
  for (size_t i = 0, n = 1 + s.below(9); i < n; i++)
    p.v.push_back(1.0 + s.below(m.size()));
  auto iv = make<double>(p);
  c.log([&](auto &o) { o << "subset " << str(p) << ", function results and calculations of " << str(m); });
  c.nontrivial(m.size() > 1);
  switch (s.below(6)) {
  case 0:
    allTargets(c, etr::subset(x, iv), at1(m, p), "subset");
    break;
  case 1:
    allTargets(c, etr::coca(x), m, "coca");
    break;
  case 2: {
    int n = 1 + (int)s.below(3);
    MV r = m;
    r.v.clear();
    for (int i = 0; i < n; i++)
      r.v.insert(r.v.end(), m.v.begin(), m.v.end());
    allTargets(c, etr::rep(x, n), r, "rep");
    break;
  }
  case 3: {
    MV r = apply2(ADD, m, scal(0.5));
    double h = 0.5;
    allTargets(c, x + h, r, "x + 0.5");
    break;
  }
  case 4: {
    MV r = apply2(GT, m, scal(0.5));
    double h = 0.5;
    allTargets(c, x > h, r, "x > 0.5");
    break;
  }
  case 5: {
    MV r = apply2(DIV, m, scal(4.0));
    double h = 4;
    allTargets(c, x / h, r, "x / 4");
    break;
  }
  }
}
// a new variable from a result of another type
template <class T, class U> static void constructed(Ctx &c) {
  Src &s = c.s;
  MV m = genConvShape(s, vecShape(1 + s.below(30)), tyOf<U>());
  if (!convertible(m, tyOf<T>()))
    return;
  auto x = make<U>(m);
  MV want = convTo(m, tyOf<T>());
  c.log([&](auto &o) { o << "new variable from " << str(m); });
  c.nontrivial(m.size() > 1);
  {
    etr::Vec<T> y = etr::coca(x);
    expectVec(c, y, want, "new variable from coca " + str(m));
    for (int i = 0; i < 8; i++) // it can grow afterwards
      y = etr::coca(y, T(1));
    for (int i = 0; i < 8; i++)
      want.v.push_back(1);
    expectVec(c, y, want, "new variable from coca " + str(m) + ", extended");
  }
  {
    size_t r = 1 + s.below(4), q = 1 + s.below(4);
    MV mm = genConvShape(s, matShape(r, q), tyOf<U>());
    if (!convertible(mm, tyOf<T>()))
      return;
    auto z = make<U>(ref::vec(mm.v));
    etr::Vec<T> y = etr::matrix(etr::coca(z), size_t{r}, size_t{q});
    expectVec(c, y, convTo(mm, tyOf<T>()), "new variable from matrix " + str(mm));
  }
}
// a value is passed through variables of several types
static void chain(Ctx &c) {
  Src &s = c.s;
  etr::Vec<double> d;
  etr::Vec<int> i;
  etr::Vec<bool> b;
  std::vector<double> mem(20, 0.0);
  BorrowPtr w(mem.data(), mem.size());
  size_t n = 1 + s.below(20);
  MV m = genConvShape(s, vecShape(n), Ty::D), cur[4];
  auto x = make<double>(m);
  for (double v : m.v)
    if (!(std::fabs(v) < 2147483647.0))
      return;
  d = x;
  i = x;
  b = x;
  w = x;
  cur[0] = m;
  cur[1] = convTo(m, Ty::I);
  cur[2] = convTo(m, Ty::B);
  cur[3] = m;
  std::string t;
  int steps = 1 + (int)s.below(8);
  static const char *nm[] = {"numeric", "integer", "logical", "borrowed"};
  for (int k = 0; k < steps; k++) {
    int a = (int)s.below(4), f = (int)s.below(4);
    auto with = [&](int q, auto &&g) {
      if (q == 0)
        g(d);
      else if (q == 1)
        g(i);
      else if (q == 2)
        g(b);
      else
        g(w);
    };
    if (a == f)
      continue;
    int how = (int)s.below(4);
    t += std::string(nm[a]) + " = " + nm[f] + (how == 1 ? " * 1" : how == 2 ? " element by element" : how == 3 ? "(all)" : "") + "; ";
    bool twoI = how == 1;
    MV next = cur[f];
    with(a, [&](auto &A) {
      with(f, [&](auto &F) {
        using TA = std::remove_cvref_t<decltype(A[0])>;
        int one = 1;
        if (how == 1)
          A = F * one;
        else if (how == 2) {
          for (size_t q = 0; q < n; q++)
            A[q] = (TA)F[q];
        } else if (how == 3) {
          bool all = true;
          A = etr::subset(F, all);
        } else
          A = F;
      });
    });
    (void)twoI;
    cur[a] = convTo(next, a == 1 ? Ty::I : a == 2 ? Ty::B : Ty::D);
    expectVec(c, d, cur[0], t + "numeric");
    expectVec(c, i, cur[1], t + "integer");
    expectVec(c, b, cur[2], t + "logical");
    expectVec(c, w, cur[3], t + "borrowed");
  }
  c.log([&](auto &o) { o << "chain " << str(m) << ": " << t; });
  c.nontrivial(steps > 1);
}
// scalars written to single elements and to parts
template <class T> static void scalars(Ctx &c) {
  Src &s = c.s;
  const Ty ty = tyOf<T>();
  bool mat = s.below(2);
  MV m = mat ? genMat(s, genDim(s, 5), genDim(s, 5), ty, SMALL) : genVec(s, genSize(s, 30), ty, SMALL);
  auto x = make<T>(m);
  int steps = 1 + (int)s.below(5);
  std::string t;
  for (int k = 0; k < steps; k++) {
    Ty from = s.pick({Ty::D, Ty::I, Ty::B});
    double v = genConv(s, from);
    if (!convertible(ref::vec({v}), ty))
      continue;
    double w = conv(v, ty);
    auto put = [&](auto &&lhs) {
      if (from == Ty::D)
        lhs = v;
      else if (from == Ty::I)
        lhs = (int)v;
      else
        lhs = (bool)v;
    };
    size_t p = s.below(m.size());
    switch (s.below(3)) {
    case 0: {
      int i = (int)p + 1;
      put(x(i));
      m.v[p] = w;
      break;
    }
    case 1: {
      MV q;
      for (size_t i = 0, n = 1 + s.below(4); i < n; i++)
        q.v.push_back(1.0 + s.below(m.size()));
      auto iv = make<double>(q);
      put(x(iv));
      for (double i : q.v)
        m.v[(size_t)i - 1] = w;
      break;
    }
    case 2: {
      if (!mat)
        continue;
      int r = 1 + (int)s.below(m.nr);
      bool all = true;
      put(x(r, all));
      for (size_t j = 0; j < m.nc; j++)
        m.v[j * m.nr + r - 1] = w;
      break;
    }
    }
    t += num(v) + " ";
    expectVec(c, x, m, "scalar " + num(v) + " written into a variable");
  }
  c.log([&](auto &o) { o << "scalars " << t << "written into " << str(m); });
  c.nontrivial(steps > 1);
}
