// reading a subset of a matrix with every pair of kinds of indices
#include "etr_pch.hpp"
#include "idxgen.hpp"
using namespace gen;

enum { S_NUM, S_INT, S_BOOL, S_BORROW, S_COCA, S_OP, S_UN, S_COMP, S_SUB };
static const char *sname[] = {"numeric matrix", "integer matrix", "logical matrix", "borrowed matrix",
                              "function result", "calculation", "unary calculation", "comparison", "subset"};

template <int S, class F> void subject(Src &s, size_t r, size_t k, int cls, F &&f) {
  if constexpr (S == S_NUM || S == S_INT || S == S_BOOL) {
    using T = std::conditional_t<S == S_NUM, double, std::conditional_t<S == S_INT, int, bool>>;
    MV m = genMat(s, r, k, tyOf<T>(), cls);
    auto x = make<T>(m);
    f(x, m, std::true_type{});
  } else if constexpr (S == S_BORROW) {
    MV m = genMat(s, r, k, Ty::D, cls);
    std::vector<double> mem = m.v;
    BorrowPtr x(mem.data(), r * k);
    auto init = make<double>(m); // makes it a matrix
    x = init;
    f(x, m, std::true_type{});
  } else {
    constexpr int kind = S == S_COCA ? K_COCA : S == S_OP ? K_BINOP : S == S_UN ? K_UNOP : S == S_COMP ? K_COMP : K_SUBSET;
    operand<kind>(s, matShape(r, k), cls, [&](auto &x, const MV &m) { f(x, m, std::false_type{}); });
  }
}

// rows with kind KI, all kinds for the columns
template <int S, int KI> void row(Ctx &c, size_t r, size_t k, int cls) {
  Src &s = c.s;
  subject<S>(s, r, k, cls, [&](auto &x, const MV &m, auto isVar) {
    IdxOpt o;
    o.needOne = true;
    o.maxLen = s.chance(1, 5) ? 2 * std::max(r, k) : 5;
    int kj = s.below(I_COUNT);
    index1<KI>(s, r, o, [&](auto &&i, const Sel &si) {
      withIndex(s, kj, k, o, [&](auto &&j, const Sel &sj) {
        MV want = select(m, si, sj);
        c.log([&](auto &o) {
          o << sname[S] << " " << str(m) << " [" << si.text << ", " << sj.text << "] -> " << str(want);
        });
        c.nontrivial(r > 1 && k > 1 && want.size() > 0);
        c.label((std::string(ikindName(KI)) + " / " + ikindName(kj)).c_str());
        const std::string what = std::string(sname[S]) + "(" + ikindName(KI) + ", " + ikindName(kj) + ")";
        int form = (int)s.below(4);
        auto sub = [&]() {
          if constexpr (isVar.value)
            return x(i, j);
          else
            return etr::subset(std::move(x), i, j);
        };
        expectVec(c, sub(), want, what);
        if (form == 0) {
          sexp res;
          if (s.below(2))
            res = etr::coca(1.0, 2.0, 3.0);
          res = sub();
          expectVec(c, res, want, what + ", assigned");
        }
        if constexpr (S == S_NUM) {
          if (form == 1) {
            sexp res;
            res = etr::subset(x, std::move(i), std::move(j)) * 2.0;
            expectVec(c, res, apply2(MUL, want, scal(2.0)), what + ", in a calculation");
          } else if (form == 2) {
            x = x(i, j);
            expectVec(c, x, want, what + ", assigned to itself");
            return;
          } else if (form == 3) {
            size_t q = s.below(want.size());
            sexp res;
            res = etr::subset(x(i, j), +(int)(q + 1));
            expectVec(c, res, ref::vec({want.v[q]}), what + ", one element of it");
          }
        }
        if constexpr (isVar.value)
          expectVec(c, x, m, what + ", the matrix");
      });
    });
  });
}
template <int S, int A, int B> void read(Ctx &c) {
  Src &s = c.s;
  overflow() = false;
  size_t r = 1 + s.below(6), k = 1 + s.below(6);
  if (s.chance(1, 12)) {
    r = 1 + s.below(40);
    k = 1 + s.below(20);
  }
  if (s.chance(1, 400)) { // a long or a wide one
    r = 200 + s.below(500);
    k = 1 + s.below(3);
    if (s.chance(1, 3))
      std::swap(r, k);
  }
  int cls = s.pick({SMALL, REAL, SPECIAL});
  switch (A + (int)s.below(B - A)) {
#define ROW(x)                                                                 \
  case x:                                                                      \
    if constexpr (x >= A && x < B)                                             \
      row<S, x>(c, r, k, cls);                                                 \
    break;
    ROW(0)
    ROW(1)
    ROW(2)
    ROW(3)
    ROW(4)
    ROW(5)
    ROW(6)
    ROW(7)
    ROW(8)
    ROW(9)
    ROW(10)
    ROW(11)
    ROW(12)
    ROW(13)
    ROW(14)
  }
}
