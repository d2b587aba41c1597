// single positions of every number type which do not exist
#include "bad.hpp"
#include <limits>
namespace {
template <class IT> IT wrong(Src &s, size_t n) {
  std::vector<IT> v = {IT(0), static_cast<IT>(n + 1), static_cast<IT>(2 * n + 1), std::numeric_limits<IT>::max()};
  if constexpr (std::is_signed_v<IT>) {
    v.push_back(IT(-1));
    v.push_back(static_cast<IT>(-static_cast<IT>(n)));
    v.push_back(std::numeric_limits<IT>::lowest());
  }
  if constexpr (std::is_floating_point_v<IT>) {
    v.push_back(std::numeric_limits<IT>::quiet_NaN());
    v.push_back(std::numeric_limits<IT>::infinity());
    v.push_back(-std::numeric_limits<IT>::infinity());
    v.push_back(IT(0.5));
    v.push_back(IT(-0.5));
    v.push_back(static_cast<IT>(n) + IT(1.5));
  }
  return v[s.below(v.size())];
}
template <class T, bool BORROW, class IT> void one(Ctx &c) {
  Src &s = c.s;
  MV m = s.chance(1, 4) ? genMat(s, genDim(s, 6), genDim(s, 6), tyOf<T>(), SMALL) : genVec(s, genSize(s, 50), tyOf<T>(), SMALL);
  std::vector<double> mem = m.v;
  auto run = [&](auto &x) {
    Witness w(s);
    size_t n = m.size();
    IT i = wrong<IT>(s, n);
    int form = (int)s.below(8);
    std::string what = "position " + num((double)i) + " of " + str(m) + " form " + std::to_string(form);
    c.log([&](auto &o) { o << what; });
    c.nontrivial();
    sexp r;
    r = etr::coca(5.0, 6.0);
    switch (form) {
    case 0:
      mustThrow(c, [&]() { r = etr::subset(x, i); }, what);
      break;
    case 1:
      mustThrow(c, [&]() { r = x(i) * 2.0; }, what);
      break;
    case 2:
      mustThrow(c, [&]() { etr::subset(x, i) = T(1); }, what);
      break;
    case 3:
      mustThrow(c, [&]() { x(i) = etr::coca(2.0); }, what);
      break;
    case 4:
      mustThrow(c, [&]() { r = etr::at(x, i); }, what);
      break;
    case 5:
      mustThrow(c, [&]() { etr::at(x, i) = T(1); }, what);
      break;
    case 6:
      if (!m.im)
        return;
      mustThrow(c, [&]() { r = etr::at(x, wrong<IT>(s, m.nr), IT(1)); }, what);
      mustThrow(c, [&]() { etr::at(x, IT(1), wrong<IT>(s, m.nc)) = T(1); }, what);
      break;
    default:
      mustThrow(c, [&]() { r = etr::subset(x + T(0), i); }, what);
      break;
    }
    expectVec(c, r, vec({5, 6}), what + ": the assigned variable");
    usable(c, x, m, what);
    w.check(c);
  };
  if constexpr (BORROW) {
    BorrowPtr x(mem.data(), mem.size());
    if (m.im) {
      auto t = make<T>(m);
      x = t;
    }
    run(x);
  } else {
    auto x = make<T>(m);
    run(x);
  }
}
template <class T, bool BORROW> void all(Ctx &c) {
  switch (c.s.below(6)) {
  case 0: return one<T, BORROW, std::size_t>(c);
  case 1: return one<T, BORROW, long>(c);
  case 2: return one<T, BORROW, unsigned>(c);
  case 3: return one<T, BORROW, float>(c);
  case 4: return one<T, BORROW, short>(c);
  default: return one<T, BORROW, double>(c);
  }
}
} // namespace
PBT_SUB("types NUM", 0.15, (all<double, false>));
PBT_SUB("types INT", 0.15, (all<int, false>));
PBT_SUB("types BOOL", 0.15, (all<bool, false>));
PBT_SUB("types BORROW", 0.15, (all<double, true>));
