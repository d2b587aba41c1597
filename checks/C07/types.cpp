// writing to single positions of every number type
#include "write.inc"
namespace {
template <class T, bool BORROW, class IT> void one(Ctx &c) {
  Src &s = c.s;
  size_t n = genSize(s, std::is_same_v<IT, signed char> ? 100 : 300);
  MV m = s.chance(1, 4) ? genMat(s, genDim(s, 6), genDim(s, 6), tyOf<T>(), SMALL) : genVec(s, n, tyOf<T>(), SMALL);
  std::vector<double> mem = m.v;
  auto run = [&](auto &x) {
    int steps = 1 + (int)s.below(3);
    for (int k = 0; k < steps; k++) {
      size_t p = s.below(std::min<size_t>(m.size(), 127));
      IT i = static_cast<IT>(p + 1);
      if constexpr (std::is_floating_point_v<IT>)
        i += static_cast<IT>(s.pick({0.0, 0.0, 0.5, 0.875}));
      double v = genVal(s, SMALL);
      int form = (int)s.below(4);
      c.log([&](auto &o) { o << "x(" << p + 1 << ") = " << num(v) << " of " << str(m) << "; "; });
      if (form == 0)
        etr::subset(x, i) = v;
      else if (form == 1)
        x(i) = v;
      else if (form == 2)
        etr::subset(x, i) = etr::coca(v);
      else {
        sexp y;
        y = etr::coca(v);
        etr::subset(x, static_cast<IT>(i)) = y * 1.0;
      }
      m.v[p] = conv(v, tyOf<T>());
      expectVec(c, x, m, "x");
    }
    c.nontrivial(m.size() > 1);
  };
  if constexpr (BORROW) {
    BorrowPtr x(mem.data(), mem.size());
    if (m.im) {
      auto t = make<T>(m);
      x = t;
    }
    run(x);
  } else {
    auto x = make<T>(m);
    run(x);
  }
}
template <class T, bool BORROW> void all(Ctx &c) {
  switch (c.s.below(6)) {
  case 0: return one<T, BORROW, std::size_t>(c);
  case 1: return one<T, BORROW, long>(c);
  case 2: return one<T, BORROW, unsigned>(c);
  case 3: return one<T, BORROW, float>(c);
  case 4: return one<T, BORROW, short>(c);
  default: return one<T, BORROW, signed char>(c);
  }
}
} // namespace
PBT_SUB("types NUM", 0.1, (all<double, false>));
PBT_SUB("types INT", 0.1, (all<int, false>));
PBT_SUB("types BOOL", 0.1, (all<bool, false>));
PBT_SUB("types BORROW", 0.1, (all<double, true>));
