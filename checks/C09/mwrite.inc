// writing to a subset of a matrix with every pair of kinds of indices
#include "etr_pch.hpp"
#include "idxgen.hpp"
using namespace gen;

enum { S_NUM, S_INT, S_BOOL, S_BORROW };
static const char *sname[] = {"numeric matrix", "integer matrix", "logical matrix", "borrowed matrix"};

// one assignment x(i, j) = right hand side
template <class X, class I, class J>
static std::string assign(Ctx &c, X &x, MV &m, I &&i, const Sel &si, J &&j, const Sel &sj) {
  using T = std::remove_cvref_t<decltype(x[0])>;
  Src &s = c.s;
  const Ty ty = tyOf<T>();
  int cls = std::is_same_v<T, double> ? s.pick({SMALL, REAL, SPECIAL}) : SMALL;
  std::vector<size_t> pos;
  for (size_t b : sj.pos)
    for (size_t a : si.pos)
      pos.push_back(b * m.nr + a);
  size_t n = pos.size();
  std::string text = "x(" + si.text + ", " + sj.text + ") = ";
  auto store = [&](const MV &r, const char *t) {
    for (size_t k = 0; k < n; k++)
      m.v[pos[k]] = conv(r.v[r.size() == 1 ? 0 : k], ty);
    text += t + str(r);
  };
  switch (s.below(9)) {
  case 0: {
    double v = s.chance(1, 5) ? s.pick({0.0, -0.0}) : genVal(s, cls);
    x(i, j) = v;
    store(scal(v), "double ");
    break;
  }
  case 1: {
    int v = (int)s.below(9) - 4;
    etr::subset(x, i, j) = v;
    store(scal(v), "int ");
    break;
  }
  case 2: {
    MV r = genVec(s, n, Ty::D, cls);
    auto y = make<double>(r);
    x(i, j) = y;
    store(r, "vector ");
    break;
  }
  case 3: { // a matrix of the size of the selection
    MV r = genMat(s, si.pos.size(), sj.pos.size(), Ty::D, cls);
    auto y = make<double>(r);
    etr::subset(x, i, j) = y;
    store(r, "matrix ");
    break;
  }
  case 4: {
    MV r = genVec(s, n, Ty::I, cls);
    auto y = make<int>(r);
    x(i, j) = y;
    store(r, "vector ");
    break;
  }
  case 5: {
    MV r = genVec(s, n, Ty::D, SMALL);
    auto y = make<double>(r);
    x(i, j) = y * 2.0;
    store(apply2(MUL, r, scal(2.0)), "calculation ");
    break;
  }
  case 6: { // a calculation with the same part
    MV r;
    r.ty = ty;
    for (size_t p : pos)
      r.v.push_back(m.v[p]);
    r = apply2(MUL, r, scal(-1.0));
    x(i, j) = x(i, j) * -1.0;
    store(r, "x(same) * -1 ");
    break;
  }
  case 7: { // the elements of another part of the matrix
    MV r;
    r.ty = ty;
    std::vector<double> q;
    for (size_t k = 0; k < n; k++) {
      q.push_back(1.0 + s.below(m.size()));
      r.v.push_back(m.v[q.back() - 1]);
    }
    auto qv = make<double>(ref::vec(q));
    x(i, j) = etr::subset(x, qv);
    store(r, ("x(" + posText(q) + ") ").c_str());
    break;
  }
  case 8: { // refused
    size_t k = n;
    while (k == n)
      k = 1 + s.below(n + 4);
    MV r = genVec(s, k, Ty::D, SMALL);
    auto y = make<double>(r);
    c.label("refused");
    text += std::to_string(k) + " elements";
    bool t;
    if (s.below(2))
      t = throws([&]() { x(i, j) = y; });
    else
      t = throws([&]() { x(i, j) = y + 1.0; });
    c.require(t, text + ": has to be refused");
    break;
  }
  }
  return text;
}

template <int S, int KI> void row(Ctx &c) {
  Src &s = c.s;
  overflow() = false;
  using T = std::conditional_t<S == S_INT, int, std::conditional_t<S == S_BOOL, bool, double>>;
  size_t r = 1 + s.below(6), k = 1 + s.below(6);
  if (s.chance(1, 15)) {
    r = 1 + s.below(40);
    k = 1 + s.below(20);
  }
  if (s.chance(1, 400)) { // a long or a wide one
    r = 200 + s.below(500);
    k = 1 + s.below(3);
    if (s.chance(1, 3))
      std::swap(r, k);
  }
  MV m = genMat(s, r, k, tyOf<T>(), SMALL);
  c.log([&](auto &o) { o << sname[S] << " " << str(m) << "; "; });
  std::vector<double> mem(m.size() + 16, 42.5);
  std::copy(m.v.begin(), m.v.end(), mem.begin() + 8);
  BorrowPtr borrowed(mem.data() + 8, m.size());
  auto owned = make<T>(m);
  if constexpr (S == S_BORROW)
    borrowed = owned; // becomes a matrix
  auto &x = [&]() -> auto & {
    if constexpr (S == S_BORROW)
      return borrowed;
    else
      return owned;
  }();
  auto before = x;
  MV mb = m;
  int steps = 1 + (int)s.below(3);
  for (int q = 0; q < steps; q++) {
    IdxOpt o;
    o.needOne = true;
    o.maxLen = s.chance(1, 5) ? std::max(r, k) + 2 : 4;
    int kj = s.below(I_COUNT);
    std::string t;
    index1<KI>(s, r, o, [&](auto &&i, const Sel &si) {
      withIndex(s, kj, k, o, [&](auto &&j, const Sel &sj) {
        t = assign(c, x, m, i, si, j, sj);
        c.label((std::string(ikindName(KI)) + " / " + ikindName(kj)).c_str());
        c.nontrivial(r > 1 && k > 1 && si.pos.size() * sj.pos.size() > 1);
      });
    });
    c.log([&](auto &o) { o << t << "; "; });
    expectVec(c, x, m, std::string(sname[S]) + " after " + t, true, std::is_same_v<T, double> ? EXACTLY : 0.0);
  }
  if constexpr (S == S_BORROW) {
    for (size_t q = 0; q < 8; q++)
      c.require(mem[q] == 42.5 && mem[m.size() + 8 + q] == 42.5, "memory beside of the borrowed one changed");
    for (size_t q = 0; q < m.size(); q++)
      c.require(same(mem[8 + q], m.v[q]), "the borrowed memory has to change");
  } else
    expectVec(c, before, mb, "copy made before");
}
template <int S, int A, int B> void writes(Ctx &c) {
  switch (A + (int)c.s.below(B - A)) {
#define ROW(x)                                                                 \
  case x:                                                                      \
    if constexpr (x >= A && x < B)                                             \
      row<S, x>(c);                                                            \
    break;
    ROW(0)
    ROW(1)
    ROW(2)
    ROW(3)
    ROW(4)
    ROW(5)
    ROW(6)
    ROW(7)
    ROW(8)
    ROW(9)
    ROW(10)
    ROW(11)
    ROW(12)
    ROW(13)
    ROW(14)
  }
}
