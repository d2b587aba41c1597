// writing to subsets of vectors and matrices with every kind of index
#include "etr_pch.hpp"
#include "idxgen.hpp"
using namespace gen;

enum { S_NUM, S_INT, S_BOOL, S_BORROW };
static const char *sname[] = {"numeric variable", "integer variable", "logical variable", "borrowed"};

template <class T> static bool fits(const MV &m) {
  if (std::is_same_v<T, int>)
    for (double d : m.v)
      if (!(std::fabs(d) < 2e9))
        return false;
  return true;
}

// one assignment x(i) = right hand side
template <class X, class I>
static std::string assign(Ctx &c, X &x, MV &m, I &&i, const Sel &sel) {
  using T = std::remove_cvref_t<decltype(x[0])>;
  Src &s = c.s;
  const Ty ty = tyOf<T>();
  int cls = std::is_same_v<T, double> ? s.pick({SMALL, REAL, SPECIAL}) : SMALL;
  size_t n = sel.pos.size();
  MV rhs;
  std::string text = "x(" + sel.text + ") = ";
  auto store = [&](const MV &r, const char *t) {
    for (size_t k = 0; k < n; k++)
      m.v[sel.pos[k]] = conv(r.v[r.size() == 1 ? 0 : k], ty);
    text += t + str(r);
  };
  int form = (int)s.below(16);
  switch (form) {
  case 0: {
    double v = s.chance(1, 5) ? s.pick({0.0, -0.0}) : genVal(s, cls);
    etr::subset(x, i) = v;
    store(scal(v), "double ");
    break;
  }
  case 1: {
    int v = (int)s.below(9) - 4;
    etr::subset(x, i) = v;
    store(scal(v), "int ");
    break;
  }
  case 2: {
    bool v = s.below(2);
    etr::subset(x, i) = v;
    store(scal(v), "bool ");
    break;
  }
  case 3:
  case 4: {
    MV r = genVec(s, n, Ty::D, cls);
    if (s.chance(1, 6))
      for (double &v : r.v)
        v = s.pick({0.0, -0.0, v});
    auto y = make<double>(r);
    if (form == 3)
      etr::subset(x, i) = y;
    else
      x(i) = y;
    store(r, "variable ");
    break;
  }
  case 5: {
    MV r = genVec(s, n, Ty::I, cls);
    auto y = make<int>(r);
    etr::subset(x, i) = y;
    store(r, "variable ");
    break;
  }
  case 6: {
    MV r = genVec(s, n, Ty::B, cls);
    auto y = make<bool>(r);
    etr::subset(x, i) = y;
    store(r, "variable ");
    break;
  }
  case 7: { // calculation
    MV r = genVec(s, n, Ty::D, SMALL);
    auto y = make<double>(r);
    double add = genSmall(s);
    etr::subset(x, i) = y + add;
    store(apply2(ADD, r, scal(add)), "calculation ");
    break;
  }
  case 8: { // function
    MV r = genVec(s, n, Ty::D, SMALL);
    auto y = make<double>(r);
    etr::subset(x, i) = etr::coca(y);
    store(r, "function ");
    break;
  }
  case 9: { // range
    int a = (int)s.below(20);
    MV r;
    r.ty = Ty::I;
    for (size_t k = 0; k < n; k++)
      r.v.push_back(a + (int)k);
    etr::subset(x, i) = etr::colon(+a, a + (int)n - 1);
    store(r, "range ");
    break;
  }
  case 10: { // part of itself
    MV r;
    r.ty = ty;
    std::vector<double> j;
    for (size_t k = 0; k < n; k++) {
      j.push_back(1.0 + s.below(m.size()));
      r.v.push_back(m.v[j.back() - 1]);
    }
    auto jv = make<double>(ref::vec(j));
    etr::subset(x, i) = etr::subset(x, jv);
    store(r, ("x(" + posText(j) + ") ").c_str());
    break;
  }
  case 11: { // calculation with itself
    MV r;
    r.ty = ty;
    for (size_t p : sel.pos)
      r.v.push_back(m.v[p]);
    r = apply2(ADD, r, scal(1.0));
    if (!fits<T>(r))
      return "";
    etr::subset(x, i) = etr::subset(x, i) + 1.0;
    store(r, "x(same) + 1 ");
    break;
  }
  case 12: { // the whole object, reversed by the index
    if (n != m.size())
      return "";
    MV r = m;
    r.im = false;
    etr::subset(x, i) = x;
    store(r, "x ");
    m.im = m.im;
    break;
  }
  case 13: { // comparison
    MV r = genVec(s, n, Ty::D, SMALL);
    auto y = make<double>(r);
    double t = genSmall(s);
    etr::subset(x, i) = y > t;
    store(apply2(GT, r, scal(t)), "comparison ");
    break;
  }
  case 14: { // subset of another variable
    MV r = genVec(s, n + 2, Ty::D, cls);
    auto y = make<double>(r);
    etr::subset(x, i) = etr::subset(y, etr::colon(+(int)n, 1));
    MV w;
    for (size_t k = n; k >= 1; k--)
      w.v.push_back(r.v[k - 1]);
    store(w, "subset ");
    break;
  }
  case 15: { // wrong number of elements
    size_t k = n;
    while (k == n)
      k = 1 + s.below(n + 4);
    MV r = genVec(s, k, Ty::D, SMALL);
    auto y = make<double>(r);
    string msg;
    bool t = false;
    switch (s.below(4)) {
    case 0:
      t = throws([&]() { etr::subset(x, i) = y; }, &msg);
      break;
    case 1:
      t = throws([&]() { etr::subset(x, i) = y + 1.0; }, &msg);
      break;
    case 2:
      t = throws([&]() { etr::subset(x, i) = etr::coca(y); }, &msg);
      break;
    case 3: {
      auto j = make<bool>(genVec(s, k, Ty::B, SMALL));
      t = throws([&]() { etr::subset(x, i) = j; }, &msg);
      break;
    }
    }
    c.label("refused");
    text += std::to_string(k) + " elements";
    c.require(t, text + ": has to be refused");
    break;
  }
  }
  return text;
}

template <int S, class F> static void subject(Ctx &c, F &&f) {
  Src &s = c.s;
  using T = std::conditional_t<S == S_INT, int, std::conditional_t<S == S_BOOL, bool, double>>;
  MV m;
  if (S != S_BORROW && s.chance(1, 4))
    m = genMat(s, genDim(s, 5), genDim(s, 5), tyOf<T>(), SMALL);
  else
    m = genVec(s, genSize(s, 150), tyOf<T>(), s.pick({SMALL, REAL}));
  c.log([&](auto &o) { o << sname[S] << " " << str(m) << "; "; });
  if constexpr (S == S_BORROW) {
    std::vector<double> mem(m.size() + 16, 42.5);
    std::copy(m.v.begin(), m.v.end(), mem.begin() + 8);
    BorrowPtr x(mem.data() + 8, m.size());
    f(x, m);
    for (size_t k = 0; k < 8; k++)
      c.require(mem[k] == 42.5 && mem[m.size() + 8 + k] == 42.5, "memory beside of the borrowed one changed");
    for (size_t k = 0; k < m.size(); k++)
      c.require(same(mem[8 + k], m.v[k], EXACTLY), "the borrowed memory has to change");
  } else {
    auto x = make<T>(m);
    f(x, m);
  }
}

template <int S> void writes(Ctx &c) {
  Src &s = c.s;
  overflow() = false;
  subject<S>(c, [&](auto &x, MV &m) {
    int steps = 1 + (int)s.below(4);
    auto before = x; // a copy must not change
    MV mb = m;
    for (int k = 0; k < steps; k++) {
      IdxOpt o;
      o.needOne = true;
      o.maxLen = s.chance(1, 6) ? m.size() + 2 : 6;
      if (s.chance(1, 5))
        o.exactLen = m.size() < 40 ? m.size() : 0;
      int ik = s.below(I_COUNT);
      std::string t;
      withIndex(s, ik, m.size(), o, [&](auto &&i, const Sel &sel) {
        bool dup = false;
        std::vector<char> seen(m.size());
        for (size_t p : sel.pos) {
          dup = dup || seen[p];
          seen[p] = 1;
        }
        t = assign(c, x, m, i, sel);
        if (t.empty())
          return;
        c.label(ikindName(ik));
        if (dup)
          c.label("repeated positions");
        c.nontrivial(m.size() > 1 && sel.pos.size() < m.size() + dup);
      });
      if (t.empty())
        continue;
      c.log([&](auto &o) { o << t << "; "; });
      expectVec(c, x, m, std::string(sname[S]) + " after " + t, true, S == S_NUM || S == S_BORROW ? EXACTLY : 0.0);
    }
    if (S != S_BORROW)
      expectVec(c, before, mb, "copy made before");
  });
}
