#include "bad.hpp"
// one invalid row or column in one of the indices
template <class T, int KI> void matrixIdx(Ctx &c) {
  Src &s = c.s;
  MV m = genMat(s, genDim(s, 6), genDim(s, 6), tyOf<T>(), SMALL);
  auto x = make<T>(m);
  Witness w(s);
  int kj = s.below(I_COUNT);
  bool row = isPositional(KI) && (s.below(2) || !isPositional(kj));
  bool longer = false; // a logical index which is too long
  if (!row && !isPositional(kj)) {
    if (kj == I_TRUE)
      kj = I_VDBL;
    else
      longer = true;
  }
  bool longRow = isLogicalIdx(KI) && s.chance(1, 3); // the one of the rows
  if (longRow)
    row = longer = false;
  IdxOpt good, bad;
  good.needOne = bad.needOne = true;
  good.maxLen = bad.maxLen = 4;
  size_t n = row ? m.nr : m.nc;
  int k = row ? KI : kj;
  bad.bad = longer || longRow ? 0 : badPos(s, n, k == I_COLON || k == I_REP);
  // NOTE: too many logical values are refused
  size_t nj = longer ? m.nc + 1 + s.below(3) : m.nc;
  size_t ni = longRow ? m.nr + 1 + s.below(3) : m.nr;
  index1<KI>(s, ni, row ? bad : good, [&](auto &&i, const Sel &si) {
    withIndex(s, kj, nj, row ? good : bad, [&](auto &&j, const Sel &sj) {
      std::string what = "x(" + si.text + ", " + sj.text + ") of " + str(m);
      if (longRow) {
        size_t len = 0;
        if constexpr (!std::is_arithmetic_v<std::remove_cvref_t<decltype(i)>>)
          len = i.size();
        if (len <= m.nr)
          return;
        c.label("logical index too long");
      }
      if (longer) {
        size_t len = 0;
        if constexpr (!std::is_arithmetic_v<std::remove_cvref_t<decltype(j)>>)
          len = j.size();
        if (len <= m.nc)
          return;
        c.label("logical index too long");
      }
      c.log([&](auto &o) { o << what; });
      c.nontrivial(true);
      c.label(row ? "row" : "column");
      c.label((std::string(ikindName(KI)) + " / " + ikindName(kj)).c_str());
      bool write = false;
      switch (s.below(3)) {
      case 0:
        mustThrow(c, [&]() { sexp r; r = x(i, j); }, what);
        break;
      case 1:
        mustThrow(c, [&]() { x = etr::subset(x, i, j) + 1.0; }, what);
        break;
      case 2:
        write = true;
        mustThrow(c, [&]() { x(i, j) = T(1); }, what + " = 1");
        break;
      }
      if (write && !longer && !longRow) { // only the selected elements
        c.require(x.size() == m.size() && x.im() && x.nr() == m.nr, what + ": shape changed");
        for (size_t b : sj.pos)
          for (size_t a : si.pos)
            if (a < m.nr && b < m.nc)
              m.v[b * m.nr + a] = x[b * m.nr + a];
      }
      usable(c, x, m, what);
      w.check(c);
    });
  });
}
// a vector is no matrix
template <class T> void noMatrix(Ctx &c) {
  Src &s = c.s;
  MV m = genVec(s, genSize(s, 50), tyOf<T>(), SMALL);
  auto x = make<T>(m);
  IdxOpt o;
  o.needOne = true;
  c.nontrivial(true);
  withIndex(s, s.below(I_COUNT), m.size(), o, [&](auto &&i, const Sel &si) {
    c.log([&](auto &o) { o << "vector " << str(m) << " with (" << si.text << ", 1)"; });
    int one = 1;
    if (s.below(2))
      mustThrow(c, [&]() { sexp r; r = x(i, one); }, "matrix subset of a vector");
    else
      mustThrow(c, [&]() { x(one, i) = T(1); }, "matrix subset of a vector");
  });
  mustThrow(c, [&]() { etr::at(x, +1, +1) = T(1); }, "at with two positions of a vector");
  usable(c, x, m, "vector");
}
