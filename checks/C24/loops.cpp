// range based loops over every kind of object
#include "etr_pch.hpp"
#include "idxgen.hpp"
#include <memory>
using namespace gen;

template <class X> static void loopRead(Ctx &c, X &x, const MV &m, const std::string &what) {
  size_t k = 0;
  for (auto e : x) {
    if (k >= m.size())
      c.fail(what + ": more than " + std::to_string(m.size()) + " elements are visited of " + str(m));
    if (!same((double)e, m.v[k]))
      c.fail(what + ": visited element " + std::to_string(k + 1) + " is " + num((double)e) + " instead of " + num(m.v[k]) + " of " + str(m));
    k++;
  }
  if (k != m.size())
    c.fail(what + ": " + std::to_string(k) + " elements are visited of " + str(m));
}
// two loops inside of each other and a loop which is left
template <class X> static void loopNested(Ctx &c, X &x, const MV &m, const std::string &what) {
  if (m.size() > 40)
    return;
  size_t i = 0, j = 0;
  for (auto &e : x) {
    j = 0;
    for (auto &f : x) {
      if (i >= m.size() || j >= m.size() || !same((double)e, m.v[i]) || !same((double)f, m.v[j]))
        c.fail(what + ": nested loops, elements " + std::to_string(i + 1) + " and " + std::to_string(j + 1) + " are wrong");
      j++;
    }
    i++;
  }
  if (i != m.size() || (i && j != m.size()))
    c.fail(what + ": nested loops visit " + std::to_string(i) + " and " + std::to_string(j) + " elements");
  size_t stop = c.s.below(m.size() + 1);
  i = 0;
  for (auto e : x) {
    if (i == stop)
      break;
    i++;
  }
  if (i != stop)
    c.fail(what + ": the loop ended early");
}
template <class X> static void loopWrite(Ctx &c, X &x, MV m, const std::string &what, bool dims = true) {
  Src &s = c.s;
  using T = std::remove_cvref_t<decltype(*x.begin())>;
  int how = (int)s.below(3);
  double v = genOf(s, tyOf<T>(), SMALL);
  size_t k = 0;
  for (auto &e : x) {
    if (how == 0)
      e = (T)v;
    else if (how == 1)
      e = (T)!e; // 0 and 1
    else if (k % 2)
      e = (T)v;
    if (k < m.size())
      m.v[k] = how == 0 || (how == 2 && k % 2) ? (double)(T)v : how == 1 ? (double)(m.v[k] == 0) : m.v[k];
    k++;
  }
  if (k != m.size())
    c.fail(what + ": " + std::to_string(k) + " elements are visited of " + std::to_string(m.size()));
  expectVec(c, x, m, what + ", changed in a loop", dims);
}
// changes through the loop variable of the storage
template <class V> static void loopStorage(Ctx &c, V &x, MV m, const std::string &what) {
  loopRead(c, x.d, m, what + ", its storage");
  loopNested(c, x.d, m, what + ", its storage");
  size_t k = 0;
  using T = std::remove_cvref_t<decltype(*x.d.begin())>;
  for (auto &e : x.d) {
    if (k % 2 == 0) {
      e = (T)!e;
      if (k < m.size())
        m.v[k] = m.v[k] == 0;
    }
    k++;
  }
  expectVec(c, x, m, what + ", changed in a loop over its storage");
}
template <int K> static void kind(Ctx &c) {
  Src &s = c.s;
  Shape sh = vecShape(genSize(s));
  if (canBeMatrix(K) && s.chance(1, 3))
    sh = matShape(genDim(s, 6), genDim(s, 6));
  operand<K>(s, sh, s.pick({SMALL, REAL, SPECIAL}), [&](auto &&x, const MV &m) {
    std::string w = kindName(K);
    c.log([&](auto &o) { o << "loop over " << w << " " << str(m); });
    c.nontrivial(m.size() > 1);
    c.label(kindName(K));
    loopRead(c, x, m, w);
    loopNested(c, x, m, w);
    const auto &cx = x;
    loopRead(c, cx, m, w + " (const)");
    if constexpr (K == K_NUM || K == K_INTVEC || K == K_BOOLVEC || K == K_BORROW) {
      if (std::is_assignable_v<decltype(*cx.begin()), int>)
        c.fail(w + ": a loop can change elements of a constant");
      if (m.size() && !same((double)cx.back(), m.v.back()))
        c.fail(w + ": the last element is " + num((double)cx.back()));
      if (std::is_assignable_v<decltype(cx.back()), int>)
        c.fail(w + ": the last element of a constant can be changed");
    }
    expectVec(c, x, m, w + " after reading in a loop");
    if constexpr (K == K_NUM || K == K_INTVEC || K == K_BOOLVEC || K == K_BORROW)
      loopWrite(c, x, m, w);
    if constexpr (K == K_NUM || K == K_INTVEC || K == K_BOOLVEC || K == K_BORROW || K == K_COCA || K == K_COLON) {
      MV now = readBack(x);
      loopStorage(c, x, now, w);
    }
  });
}
// storage objects which are used on their own
template <class T> static void storage(Ctx &c) {
  Src &s = c.s;
  MV m = genVec(s, genSize(s, 60), tyOf<T>(), SMALL);
  c.log([&](auto &o) { o << "loop over a storage with " << str(m); });
  c.nontrivial(m.size() > 1);
  etr::Buffer<T> b(m.size());
  for (size_t i = 0; i < m.size(); i++)
    b[i] = (T)m.v[i];
  loopRead(c, b, m, "Buffer");
  loopNested(c, b, m, "Buffer");
  const auto &cb = b;
  loopRead(c, cb, m, "constant Buffer");
  for (int k = 0, n = (int)s.below(4); k < n; k++) {
    switch (s.below(3)) {
    case 0: {
      b.push_back(T(1));
      m.v.push_back(1);
      break;
    }
    case 1: { // smaller or larger; new elements have no defined value
      size_t z = 1 + s.below(m.size() + 5);
      b.resize(z);
      m.v.resize(z);
      for (size_t i = 0; i < z; i++) {
        b[i] = T(i % 2);
        m.v[i] = (double)(i % 2);
      }
      break;
    }
    case 2: {
      etr::Buffer<T> d(b);
      loopRead(c, d, m, "copied Buffer");
      for (auto &e : d)
        e = T(0);
      break;
    }
    }
    loopRead(c, b, m, "changed Buffer");
  }
  std::unique_ptr<T[]> mem(new T[m.size()]);
  for (size_t i = 0; i < m.size(); i++)
    mem[i] = (T)m.v[i];
  etr::Borrow<T> w(mem.get(), m.size());
  loopRead(c, w, m, "Borrow");
  loopNested(c, w, m, "Borrow");
  size_t z = 1 + s.below(m.size());
  w.resize(z);
  m.v.resize(z);
  loopRead(c, w, m, "Borrow, made smaller");
}
// the variable had other sizes before: memory behind the last element is never visited
template <class T> static void reused(Ctx &c) {
  Src &s = c.s;
  etr::Vec<T> x;
  MV m;
  loopRead(c, x, m, "a variable without content");
  int steps = 1 + (int)s.below(6);
  for (int k = 0; k < steps; k++) {
    std::string t;
    switch (s.below(5)) {
    case 0: {
      double v = genOf(s, tyOf<T>(), SMALL);
      x = (T)v;
      m = ref::vec({v});
      t = "a scalar";
      break;
    }
    case 1: {
      m = genVec(s, genSize(s, 60), tyOf<T>(), SMALL);
      auto y = make<T>(m);
      x = y;
      t = "a vector";
      break;
    }
    case 2: {
      m = genMat(s, genDim(s, 5), genDim(s, 5), tyOf<T>(), SMALL);
      auto y = make<T>(m);
      x = y;
      t = "a matrix";
      break;
    }
    case 3: {
      if (!m.size())
        continue;
      MV p;
      for (size_t i = 0, n = 1 + s.below(9); i < n; i++)
        p.v.push_back(1.0 + s.below(m.size()));
      auto iv = make<double>(p);
      x = etr::subset(x, iv);
      m = at1(m, p);
      t = "a part of itself";
      break;
    }
    case 4: {
      int a = (int)s.below(3), b = (int)s.below(9);
      if (tyOf<T>() == Ty::B)
        b = a = 1;
      x = etr::colon(a, b);
      m = MV();
      for (int i = a; a <= b ? i <= b : i >= b; i += a <= b ? 1 : -1)
        m.v.push_back(i);
      t = "a range";
      break;
    }
    }
    c.log([&](auto &o) { o << "x = " << t << " " << str(m) << "; "; });
    loopRead(c, x, m, "after x = " + t);
    loopNested(c, x, m, "after x = " + t);
    loopRead(c, x.d, m, "storage after x = " + t);
    if (s.below(2) && m.size()) {
      loopWrite(c, x, m, "after x = " + t);
      m = readBack(x);
    }
  }
  c.nontrivial(steps > 1);
}
// a loop over a subset visits and changes the selected elements of the variable
template <class T> static void overSubset(Ctx &c) {
  Src &s = c.s;
  bool mat = s.below(2);
  MV m = mat ? genMat(s, genDim(s, 6), genDim(s, 6), tyOf<T>(), SMALL) : genVec(s, genSize(s, 40), tyOf<T>(), SMALL);
  auto x = make<T>(m);
  auto run = [&](auto &&sub, const std::vector<size_t> &pos, const std::string &t) {
    c.log([&](auto &o) { o << "loop over " << t << " of " << str(m); });
    c.nontrivial(pos.size() > 1);
    MV want;
    for (size_t p : pos)
      want.v.push_back(m.v[p]);
    loopRead(c, sub, want, t);
    size_t k = 0;
    MV after = m;
    for (auto &e : sub) {
      T v = (T)genOf(s, tyOf<T>(), SMALL);
      if (k < pos.size()) {
        after.v[pos[k]] = (double)v;
        e = v;
      }
      k++;
    }
    expectVec(c, x, after, t + ": variable changed in a loop over the subset");
  };
  if (mat && s.below(2)) {
    withIndex(s, s.pick({I_TRUE, I_VINT, I_VDBL, I_VBOOL, I_COLON, I_DBL}), m.nr, IdxOpt{.needOne = true}, [&](auto &&r, const Sel &rs) {
      withIndex(s, s.pick({I_TRUE, I_VINT, I_VBOOL, I_INT}), m.nc, IdxOpt{.needOne = true}, [&](auto &&q, const Sel &qs) {
        std::vector<size_t> pos;
        for (size_t j : qs.pos)
          for (size_t i : rs.pos)
            pos.push_back(j * m.nr + i);
        auto sub = etr::subset(x, r, q);
        run(sub, pos, "x(" + rs.text + ", " + qs.text + ")");
      });
    });
  } else {
    withIndex(s, s.pick({I_TRUE, I_VINT, I_VDBL, I_VBOOL, I_COLON, I_DBL, I_COCAI, I_OP}), m.size(), IdxOpt{.needOne = true}, [&](auto &&i, const Sel &sel) {
      auto sub = etr::subset(x, i);
      run(sub, sel.pos, "x(" + sel.text + ")");
    });
  }
}
// loops control programs
static void programs(Ctx &c) {
  Src &s = c.s;
  MV m = genVec(s, genSize(s, 50), Ty::D, SMALL);
  auto x = make<double>(m);
  int n = (int)m.size();
  c.log([&](auto &o) { o << "programs with loops over " << str(m); });
  c.nontrivial(n > 1);
  // sum of the elements, one after the other
  double sum = 0, want = 0;
  for (auto i : etr::colon(1, n))
    sum += etr::at(x, i);
  for (double e : m.v)
    want += e;
  c.require(sum == want, "the sum in a loop over a range is " + num(sum) + " instead of " + num(want));
  // cumulated sums stored in another variable
  sexp y;
  y = etr::vector_numeric(n);
  double acc = 0;
  int k = 1;
  for (auto e : x) {
    acc += e;
    etr::at(y, k) = acc;
    k++;
  }
  MV cum = m;
  for (size_t i = 1; i < cum.v.size(); i++)
    cum.v[i] += cum.v[i - 1];
  expectVec(c, y, cum, "cumulated sums");
  // in reverse order
  for (auto i : etr::colon(n, 1))
    x[n - i] = etr::at(y, i);
  std::vector<double> rev(cum.v.rbegin(), cum.v.rend());
  expectVec(c, x, ref::vec(rev), "reverse order");
  // a loop over concatenated objects
  double p = genSmall(s);
  size_t q = 0;
  for (auto e : etr::coca(p, y, 2)) {
    double w = q == 0 ? p : q <= cum.size() ? cum.v[q - 1] : 2.0;
    c.require(q < cum.size() + 2 && e == w, "loop over coca: element " + std::to_string(q + 1) + " is " + num(e));
    q++;
  }
  c.require(q == cum.size() + 2, "loop over coca: number of elements");
  // repeated number
  q = 0;
  for (auto e : etr::rep(p, n)) {
    c.require(e == p, "loop over rep");
    q++;
  }
  c.require(q == (size_t)n, "loop over rep: number of elements");
}
PBT_SUB("num", 1, kind<K_NUM>);
PBT_SUB("int", 1, kind<K_INTVEC>);
PBT_SUB("bool", 1, kind<K_BOOLVEC>);
PBT_SUB("borrow", 1, kind<K_BORROW>);
PBT_SUB("coca", 1, kind<K_COCA>);
PBT_SUB("colon", 1, kind<K_COLON>);
PBT_SUB("subset", 1, kind<K_SUBSET>);
PBT_SUB("const", 0.5, kind<K_CONST>);
PBT_SUB("int_subset", 0.5, kind<K_ISUBSET>);
PBT_SUB("storage_double", 0.5, storage<double>);
PBT_SUB("storage_int", 0.5, storage<int>);
PBT_SUB("storage_bool", 0.5, storage<bool>);
PBT_SUB("reused_double", 1, reused<double>);
PBT_SUB("reused_int", 1, reused<int>);
PBT_SUB("reused_bool", 1, reused<bool>);
PBT_SUB("over_subset_double", 1, overSubset<double>);
PBT_SUB("over_subset_int", 1, overSubset<int>);
PBT_SUB("over_subset_bool", 1, overSubset<bool>);
PBT_SUB("programs", 1, programs);
