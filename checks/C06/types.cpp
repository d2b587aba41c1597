// single positions of every number type
#include "sub.inc"
namespace {
template <int S, class IT> void one(Ctx &c) {
  Src &s = c.s;
  size_t n = std::is_same_v<IT, signed char> ? genSize(s, 100) : genSize(s, 300);
  int cls = s.pick({SMALL, REAL, SPECIAL});
  subject<S>(s, n, cls, [&](auto &x, const MV &m, auto isVar) {
    size_t p = s.below(m.size());
    if (m.size() > 127 && std::is_same_v<IT, signed char>)
      p = p % 127;
    IT i = static_cast<IT>(p + 1);
    if constexpr (std::is_floating_point_v<IT>)
      i += static_cast<IT>(s.pick({0.0, 0.0, 0.5, 0.875}));
    MV want = ref::vec({m.v[p]}, m.ty);
    c.log([&](auto &o) { o << sname[S] << " " << str(m) << " at position " << p + 1; });
    c.nontrivial(m.size() > 1);
    const std::string what = std::string("element of ") + sname[S];
    if constexpr (isVar.value) {
      expectVec(c, etr::subset(x, i), want, what);
      const IT k = i;
      expectVec(c, etr::subset(x, k), want, what);
      expectVec(c, etr::subset(x, static_cast<IT>(i)), want, what);
      const auto r = x(i);
      expectVec(c, r, want, what + ", x(i)");
      sexp y;
      y = etr::subset(x, i) + 1.0;
      expectVec(c, y, apply2(ADD, want, scal(1.0)), what + ", in a calculation");
      expectVec(c, x, m, what + ", the subject");
    } else {
      expectVec(c, etr::subset(std::move(x), i), want, what);
      sexp y;
      y = etr::subset(std::move(x), i);
      expectVec(c, y, want, what + ", assigned");
    }
  });
}
template <int S> void all(Ctx &c) {
  switch (c.s.below(7)) {
  case 0: return one<S, std::size_t>(c);
  case 1: return one<S, long>(c);
  case 2: return one<S, unsigned>(c);
  case 3: return one<S, float>(c);
  case 4: return one<S, short>(c);
  case 5: return one<S, unsigned long long>(c);
  default: return one<S, signed char>(c);
  }
}
} // namespace
PBT_SUB("types NUM", 0.1, all<S_NUM>);
PBT_SUB("types INT", 0.1, all<S_INT>);
PBT_SUB("types BOOL", 0.1, all<S_BOOL>);
PBT_SUB("types BORROW", 0.1, all<S_BORROW>);
PBT_SUB("types MAT", 0.1, all<S_MAT>);
PBT_SUB("types COCA", 0.05, all<S_COCA>);
PBT_SUB("types OP", 0.05, all<S_OP>);
PBT_SUB("types SUB", 0.05, all<S_SUB>);
