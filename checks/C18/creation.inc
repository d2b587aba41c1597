// functions which create constants give the same with and without derivatives
#include "etr_pch.hpp"
#include "derivprog.hpp"
#include "../C12/colon.inc"
// number of elements: never so many that the constants do not fit
namespace {
// a new variable gets the constant and has the derivative of a constant
template <int IDX, class MK> void created(Ctx &c, AV &av, int var, int indep, const MV &want, const std::string &what, MK &&mk) {
  auto check = [&](auto &x, int i) {
    x = mk();
    MV got = vec(valuesOf(x)), g = vec(derivsOf(x)), one = vec(std::vector<double>(want.size(), i == indep ? 1.0 : 0.0));
    std::vector<double> v = want.v;
    expectMV(c, got, vec(v), what);
    expectMV(c, g, one, "derivative of " + what);
  };
  VP<0, 0> a0(av);
  VP<1, 0> a1(av);
  if (var == 0)
    check(a0, 0);
  else
    check(a1, 1);
}
inline void startVars(Src &s, AV &av) {
  auto x0 = make<double>(genVec(s, genSize(s, 12), Ty::D, SMALL)), x1 = make<double>(genVec(s, genSize(s, 12), Ty::D, SMALL));
  auto x2 = make<double>(ref::vec({1.0}));
  av.initBuffer(x0, x1, x2);
}
template <class TA, class TB, int KA, int KB> void ranges(Ctx &c) {
  Src &s = c.s;
  overflow() = false;
  int indep = (int)s.below(3);
  AV av(indep, 0);
  startVars(s, av);
  int rounds = 1 + (int)s.below(3);
  for (int r = 0; r < rounds; r++) {
    Bounds bd = genBounds(s, tyOf<TA>(), tyOf<TB>());
    int var = (int)s.below(2);
    std::string text = "colon<" + std::to_string(3) + ">(av, " + num(bd.a) + ", " + num(bd.b) + ") kinds " + std::to_string(KA) + "," + std::to_string(KB);
    c.log([&](auto &o) { o << "a" << var << " = " << text << "; "; });
    if (bd.want.size() > 1)
      c.nontrivial();
    bound<TA, KA>(s, bd.a, [&](auto &a) {
      bound<TB, KB>(s, bd.b, [&](auto &b) {
        created<3>(c, av, var, indep, bd.want, text, [&]() { return etr::colon<3>(av, a, b); });
      });
    });
  }
}
template <class TA, int KA> void zeros(Ctx &c) {
  Src &s = c.s;
  int indep = (int)s.below(3);
  AV av(indep, 0);
  startVars(s, av);
  int rounds = 1 + (int)s.below(3);
  for (int r = 0; r < rounds; r++) {
    int64_t n = s.chance(1, 8) ? -(int64_t)s.below(3) : 1 + (int64_t)s.below(40);
    double v = (double)n + (std::is_same_v<TA, double> ? s.pick({0.0, 0.0, 0.5}) : 0.0);
    if (n < 0)
      v = (double)n;
    int var = (int)s.below(2), f = (int)s.below(3);
    std::string text = "vector_" + std::string(f == 0 ? "numeric" : f == 1 ? "integer" : "logical") + "(" + num(v) + ") kind " + std::to_string(KA);
    c.log([&](auto &o) { o << "a" << var << " = " << text << "; "; });
    c.nontrivial(n > 1);
    bool long_ = KA == C_LONG, bad = v < 1 || long_;
    bound<TA, KA>(s, v, [&](auto &a) {
      auto run = [&]() {
        MV want = vec(std::vector<double>((size_t)n, 0.0));
        if (f == 0)
          created<4>(c, av, var, indep, want, text, [&]() { return etr::vector_numeric<4>(av, a); });
        else if (f == 1)
          created<5>(c, av, var, indep, want, text, [&]() { return etr::vector_integer<5>(av, a); });
        else
          created<6>(c, av, var, indep, want, text, [&]() { return etr::vector_logical<6>(av, a); });
      };
      if (bad) {
        MV w = vec({1.0});
        bool refused = throws([&]() {
          if (f == 0)
            (void)etr::vector_numeric<4>(av, a);
          else if (f == 1)
            (void)etr::vector_integer<5>(av, a);
          else
            (void)etr::vector_logical<6>(av, a);
        });
        if (!refused)
          c.fail(text + " is accepted");
      } else
        run();
    });
  }
}
} // namespace
