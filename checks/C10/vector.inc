#include "bad.hpp"
template <class T, bool BORROW, class F> void subj(Ctx &c, bool matrix, F &&f) {
  Src &s = c.s;
  MV m = matrix ? genMat(s, genDim(s, 5), genDim(s, 5), tyOf<T>(), SMALL)
                : genVec(s, genSize(s, 120), tyOf<T>(), SMALL);
  if constexpr (BORROW) {
    std::vector<double> mem = m.v;
    BorrowPtr x(mem.data(), mem.size());
    if (m.im) {
      auto t = make<T>(m);
      x = t;
    }
    f(x, m);
  } else {
    auto x = make<T>(m);
    f(x, m);
  }
}
template <class T, bool BORROW> void variable(Ctx &c) {
  Src &s = c.s;
  subj<T, BORROW>(c, s.chance(1, 5), [&](auto &x, MV &m) {
    Witness w(s);
    size_t n = m.size();
    const auto &kinds = posKinds();
    int k = kinds[s.below(kinds.size())];
    IdxOpt o;
    o.maxLen = s.chance(1, 5) ? n + 3 : 5;
    o.bad = badPos(s, n, k == I_COLON || k == I_REP);
    withIndex(s, k, n, o, [&](auto &&i, const Sel &sel) {
      int form = (int)s.below(8);
      std::string what = std::string(form < 4 ? "reading" : "writing") + " x(" + sel.text + ") of " + str(m);
      c.log([&](auto &o) { o << what; });
      c.nontrivial(true);
      c.label(ikindName(k));
      c.label(form < 4 ? "read" : "write");
      switch (form) {
      case 0:
        mustThrow(c, [&]() { sexp r; r = etr::subset(x, i); }, what);
        break;
      case 1:
        mustThrow(c, [&]() { sexp r; r = x(i) + 1.0; }, what);
        break;
      case 2:
        mustThrow(c, [&]() { x = etr::subset(x, i); }, what);
        break;
      case 3:
        mustThrow(c, [&]() {
          const auto r = etr::subset(x, i);
          double sum = 0;
          for (size_t p = 0; p < r.size(); p++)
            sum += r[p];
        }, what);
        break;
      case 4:
        mustThrow(c, [&]() { etr::subset(x, i) = T(1); }, what);
        break;
      case 5:
        mustThrow(c, [&]() { x(i) = 2.0; }, what);
        break;
      case 6:
      case 7: {
        size_t len = sel.pos.size();
        auto y = make<double>(genVec(s, len, Ty::D, SMALL));
        if (form == 6)
          mustThrow(c, [&]() { etr::subset(x, i) = y; }, what);
        else
          mustThrow(c, [&]() { etr::subset(x, i) = y + 1.0; }, what);
        break;
      }
      }
      if (form >= 4) { // only selected elements may have changed
        std::vector<char> selected(n);
        for (size_t p : sel.pos)
          if (p < n)
            selected[p] = 1;
        c.require(x.size() == n && x.im() == m.im, what + ": shape changed");
        for (size_t p = 0; p < n; p++)
          if (selected[p])
            m.v[p] = x[p];
      }
      usable(c, x, m, what);
      w.check(c);
    });
  });
}

// single element access
template <class T, bool BORROW> void elements(Ctx &c) {
  Src &s = c.s;
  subj<T, BORROW>(c, s.chance(1, 2), [&](auto &x, MV &m) {
    Witness w(s);
    size_t n = m.size();
    int64_t b = badPos(s, n, false);
    int bi = b == INT64_MIN ? 0 : (int)b;
    int form = (int)s.below(m.im ? 12 : 7);
    std::string what = "form " + std::to_string(form) + " with " + std::to_string(bi) + " of " + str(m);
    c.log([&](auto &o) { o << what; });
    c.nontrivial(true);
    switch (form) {
    case 0:
      mustThrow(c, [&]() { volatile double d = etr::at(x, +bi); (void)d; }, "at, " + what);
      break;
    case 1:
      mustThrow(c, [&]() { etr::at(x, (double)bi) = T(1); }, "at, " + what);
      break;
    case 2:
      mustThrow(c, [&]() { etr::at(x, +bi) = T(1); }, "at, " + what);
      break;
    case 3: {
      size_t p = n + s.below(10);
      mustThrow(c, [&]() { x[p] = T(1); }, "x[" + std::to_string(p) + "], " + what);
      break;
    }
    case 4: {
      size_t p = n + s.below(10);
      const auto &cx = x;
      mustThrow(c, [&]() { volatile double d = cx[p]; (void)d; }, "x[" + std::to_string(p) + "], " + what);
      break;
    }
    case 5: {
      double half = s.pick({0.5, 0.0, -0.5, 0.999, -3.5});
      mustThrow(c, [&]() { sexp r; r = etr::subset(x, half); }, "x(" + num(half) + ")");
      break;
    }
    case 6: {
      bool f = false;
      mustThrow(c, [&]() { sexp r; r = etr::subset(x, f); }, "x(false)");
      break;
    }
    default: { // row or column
      bool row = s.below(2);
      int64_t q = badPos(s, row ? m.nr : m.nc, false);
      int qi = q == INT64_MIN ? 0 : (int)q;
      int other = 1 + (int)s.below(row ? m.nc : m.nr);
      int r = row ? qi : other, k = row ? other : qi;
      what = "(" + std::to_string(r) + ", " + std::to_string(k) + ") of " + str(m);
      c.label(row ? "row" : "column");
      switch (form) {
      case 7:
        mustThrow(c, [&]() { volatile double d = etr::at(x, +r, +k); (void)d; }, "at" + what);
        break;
      case 8:
        mustThrow(c, [&]() { etr::at(x, (double)r, +k) = T(1); }, "at" + what);
        break;
      case 9:
        mustThrow(c, [&]() { etr::at(x, +r, (double)k) = T(1); }, "at" + what);
        break;
      case 10:
        mustThrow(c, [&]() { etr::at(x, (double)r, (double)k) = T(1); }, "at" + what);
        break;
      case 11:
        if (s.below(2))
          mustThrow(c, [&]() { volatile double d = etr::at(-x, +r, +k); (void)d; }, "at(-x" + what);
        else
          mustThrow(c, [&]() { sexp o; o = etr::subset(-x, +r, (double)k); }, "subset(-x" + what);
        break;
      }
    }
    }
    usable(c, x, m, what);
    w.check(c);
  });
}
