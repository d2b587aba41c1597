// reading a subset of everything which can be subsetted with every kind of index
#include "etr_pch.hpp"
#include "idxgen.hpp"
using namespace gen;

enum { S_NUM, S_INT, S_BOOL, S_BORROW, S_COCA, S_COLON, S_OP, S_UN, S_COMP, S_SUB, S_MAT, S_COUNT };
static const char *sname[] = {"numeric variable", "int variable", "logical variable", "borrowed",
                              "coca", "colon", "calculation", "unary calculation", "comparison",
                              "subset", "matrix"};

// f(subject, model, is a variable)
template <int S, class F> void subject(Src &s, size_t n, int cls, F &&f) {
  if constexpr (S == S_NUM || S == S_INT || S == S_BOOL) {
    using T = std::conditional_t<S == S_NUM, double, std::conditional_t<S == S_INT, int, bool>>;
    MV m = genVec(s, n, tyOf<T>(), cls);
    auto x = make<T>(m);
    f(x, m, std::true_type{});
  } else if constexpr (S == S_BORROW) {
    MV m = genVec(s, n, Ty::D, cls);
    std::vector<double> mem = m.v;
    BorrowPtr x(mem.data(), mem.size());
    f(x, m, std::true_type{});
  } else if constexpr (S == S_MAT) {
    size_t r = 1 + s.below(4), c = 1 + s.below(4);
    MV m = genMat(s, r, c, Ty::D, cls);
    auto x = make<double>(m);
    f(x, m, std::true_type{});
  } else {
    constexpr int k = S == S_COCA    ? K_COCA
                      : S == S_COLON ? K_COLON
                      : S == S_OP    ? K_BINOP
                      : S == S_UN    ? K_UNOP
                      : S == S_COMP  ? K_COMP
                                     : K_SUBSET;
    operand<k>(s, vecShape(n), cls, [&](auto &x, const MV &m) { f(x, m, std::false_type{}); });
  }
}

template <int S> void read(Ctx &c) {
  Src &s = c.s;
  size_t n = genSize(s, 200);
  int cls = s.pick({SMALL, REAL, SPECIAL});
  int k = s.below(I_COUNT);
  subject<S>(s, n, cls, [&](auto &x, const MV &m, auto isVar) {
    using X = std::remove_cvref_t<decltype(x)>;
    IdxOpt o;
    o.maxLen = s.chance(1, 8) ? 2 * m.size() + 3 : 8;
    withIndex(s, k, m.size(), o, [&](auto &&i, const Sel &sel) {
      MV want = select(m, sel.pos);
      c.log([&](auto &o) {
        o << sname[S] << " " << str(m) << " [" << sel.text << "] -> " << str(want);
      });
      c.nontrivial(!want.v.empty() && m.size() > 1);
      c.label(ikindName(k));
      if (want.v.empty())
        c.label("nothing selected");
      int form = s.below(5);
      auto sub = [&]() {
        if constexpr (isVar.value)
          return etr::subset(x, i);
        else
          return etr::subset(std::move(x), i);
      };
      const std::string what = std::string("subset of ") + sname[S] + " with " + ikindName(k);
      if (want.v.empty()) { // refused or empty, nothing else
        string msg;
        size_t got = 0;
        if (!throws([&]() { got = sub().size(); }) && got != 0)
          c.fail(what + ": " + std::to_string(got) + " elements although nothing is selected");
        return;
      }
      expectVec(c, sub(), want, what);
      if (form == 0) { // the index as temporary
        if constexpr (isVar.value)
          expectVec(c, etr::subset(x, std::move(i)), want, what);
        else
          expectVec(c, etr::subset(std::move(x), std::move(i)), want, what);
      }
      if constexpr (isVar.value) {
        auto r = x(i);
        c.require(r.size() == want.size(), what + ": size of x(i)");
        c.require(!r.im(), what + ": x(i) is a vector");
        // NOTE: element wise access of a variable subset is provided for numeric objects
        if constexpr (S == S_NUM || S == S_BORROW || S == S_MAT)
        for (size_t p = 0; p < want.size(); p++)
          if (!same(r[p], want.v[p]))
            c.fail(what + ": x(i)[" + std::to_string(p) + "] is " + num(r[p]) + " instead of " + num(want.v[p]));
        const auto &cr = r;
        expectVec(c, cr, want, what);
      }
      if (form == 0) {
        sexp res;
        if (s.below(2))
          res = etr::matrix(etr::coca(1.0, 2.0, 3.0, 4.0), 2, 2);
        res = sub();
        expectVec(c, res, want, what + ", assigned");
      } else if (form == 1) {
        using T = std::conditional_t<S == S_INT || S == S_COLON, int, std::conditional_t<S == S_BOOL || S == S_COMP, bool, double>>;
        etr::Vec<T> res;
        if constexpr (isVar.value)
          res = x(i);
        else
          res = sub();
        expectVec(c, res, want, what + ", assigned to the same type");
      } else if (form == 2) {
        sexp res;
        double add = 1.0;
        res = sub() + add;
        expectVec(c, res, apply2(ADD, want, scal(1.0)), what + ", part of a calculation");
      } else if (form == 3 && want.size() == 1) {
        double d = sub();
        c.require(same(d, want.v[0]), what + ", converted to double: " + num(d) + " instead of " + num(want.v[0]));
      } else if (form == 4) {
        // subset of the subset
        size_t q = s.below(want.size());
        sexp res;
        res = etr::subset(sub(), static_cast<int>(q + 1));
        expectVec(c, res, ref::vec({want.v[q]}), what + ", subset of the subset");
      }
      // NOTE: reading changes nothing
      if constexpr (isVar.value)
        expectVec(c, x, m, what + ", the subject");
    });
  });
}
