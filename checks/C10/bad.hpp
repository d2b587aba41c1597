// accesses with at least one invalid position
#include "etr_pch.hpp"
#include "idxgen.hpp"
using namespace gen;

// an invalid position (INT64_MIN stands for 0)
inline int64_t badPos(Src &s, size_t n, bool small) {
  switch (s.below(small ? 4 : 8)) {
  case 0:
    return static_cast<int64_t>(n) + 1;
  case 1:
    return INT64_MIN;
  case 2:
    return -1;
  case 3:
    return static_cast<int64_t>(n) + 1 + static_cast<int64_t>(s.below(4));
  case 4:
    return -static_cast<int64_t>(n) - static_cast<int64_t>(s.below(3));
  case 5:
    return static_cast<int64_t>(n) * 2 + static_cast<int64_t>(s.below(100));
  case 6:
    return 2147483647;
  default:
    return -2147483647;
  }
}
inline const std::vector<int> &posKinds() {
  static std::vector<int> v;
  if (v.empty())
    for (int k = 0; k < I_COUNT; k++)
      if (isPositional(k))
        v.push_back(k);
  return v;
}
// an independent object which has to survive
struct Witness {
  sexp x;
  MV m;
  Witness(Src &s) : m(genVec(s, 1 + s.below(5), Ty::D, SMALL)) {
    auto t = make<double>(m);
    x = t;
  }
  void check(Ctx &c) {
    expectVec(c, x, m, "another variable");
    x = x + 1.0;
    m = apply2(ADD, m, scal(1.0));
    expectVec(c, x, m, "another variable");
  }
};
template <class F> void mustThrow(Ctx &c, F &&f, const std::string &what) {
  if (!throws(f))
    c.fail(what + ": has to be refused");
}
// the object is still usable
template <class X> void usable(Ctx &c, X &x, MV m, const std::string &what) {
  expectVec(c, x, m, what);
  using T = std::remove_cvref_t<decltype(x[0])>;
  x[m.size() - 1] = T(1);
  m.v[m.size() - 1] = 1;
  expectVec(c, x, m, what);
  sexp y;
  y = x + 0.0;
  expectVec(c, y, m, what);
}
