// combined constants of scalars and objects of every type
#include "creation.inc"
namespace {
enum AK { A_SC, A_VEC, A_CONST, A_RVAL };
template <class T, int K, class F> void arg(Src &s, MV &want, F &&f) {
  constexpr Ty ty = tyOf<T>();
  if constexpr (K == A_SC) {
    double v = genOf(s, ty, SMALL);
    want.v.push_back(v);
    T t = static_cast<T>(v);
    f(t);
  } else {
    MV m = genVec(s, genSize(s, 8), ty, SMALL);
    want.v.insert(want.v.end(), m.v.begin(), m.v.end());
    auto x = make<T>(m);
    if constexpr (K == A_VEC)
      f(x);
    else if constexpr (K == A_CONST) {
      const auto &y = x;
      f(y);
    } else
      f(etr::coca(x));
  }
}
template <class TA, int KA, class TB, int KB, class TC, int KC> void combined(Ctx &c) {
  Src &s = c.s;
  int indep = (int)s.below(3);
  AV av(indep, 0);
  startVars(s, av);
  int rounds = 1 + (int)s.below(3);
  for (int r = 0; r < rounds; r++) {
    int n = 1 + (int)s.below(3), var = (int)s.below(2);
    MV want = vec({});
    std::string text = "coca of " + std::to_string(n) + " kinds " + std::to_string(KA) + std::to_string(KB) + std::to_string(KC);
    arg<TA, KA>(s, want, [&](auto &&a) {
      if (n == 1) {
        c.log([&](auto &o) { o << text << " = " << str(want) << "; "; });
        created<3>(c, av, var, indep, want, text, [&]() { return etr::coca<3>(av, a); });
        return;
      }
      arg<TB, KB>(s, want, [&](auto &&b) {
        if (n == 2) {
          c.log([&](auto &o) { o << text << " = " << str(want) << "; "; });
          created<4>(c, av, var, indep, want, text, [&]() { return etr::coca<4>(av, a, b); });
          return;
        }
        arg<TC, KC>(s, want, [&](auto &&d) {
          c.log([&](auto &o) { o << text << " = " << str(want) << "; "; });
          created<5>(c, av, var, indep, want, text, [&]() { return etr::coca<5>(av, a, b, d); });
        });
      });
    });
    c.nontrivial(want.size() > 1);
  }
}
} // namespace
#define T3(TA, KA, TB, KB, TC, KC) PBT_SUB("coca " #TA " " #KA " " #TB " " #KB " " #TC " " #KC, 0.03, (combined<TA, KA, TB, KB, TC, KC>))
T3(double, A_SC, int, A_VEC, bool, A_CONST);
T3(double, A_VEC, double, A_SC, int, A_RVAL);
T3(double, A_CONST, bool, A_VEC, double, A_RVAL);
T3(double, A_RVAL, int, A_SC, double, A_VEC);
T3(int, A_SC, double, A_VEC, int, A_CONST);
T3(int, A_VEC, int, A_SC, double, A_SC);
T3(int, A_CONST, int, A_VEC, int, A_VEC);
T3(int, A_RVAL, bool, A_SC, double, A_RVAL);
T3(bool, A_SC, bool, A_VEC, int, A_VEC);
T3(bool, A_VEC, double, A_CONST, bool, A_SC);
T3(bool, A_CONST, bool, A_SC, bool, A_RVAL);
T3(bool, A_RVAL, int, A_RVAL, double, A_SC);
