// runs generated programs with derivatives (three owned and two borrowed variables)
#ifndef DERIVPROG_HPP
#define DERIVPROG_HPP
#include "dual.hpp"
#include "etrgen.hpp"
namespace gen {
#ifdef DERIV_R // the borrowed variables are R objects
using AV = etr::AllVars<3, 0, 2, 24>;
constexpr int BTYPE = 2;
#else
using AV = etr::AllVars<3, 2, 0, 24>;
constexpr int BTYPE = 1;
#endif
template <int I, int K> using VP = etr::Vec<double, etr::VarPointer<AV, I, K>, etr::VariableTypeTrait>;
#define DERIV_VARS                                                                                 \
  VP<0, 0> a0(av);                                                                                 \
  VP<1, 0> a1(av);                                                                                 \
  VP<2, 0> a2(av);                                                                                 \
  VP<0, BTYPE> b0(av);                                                                                 \
  VP<1, BTYPE> b1(av)
#define PLAIN_VARS                                                                                 \
  auto &a0 = vars.a[0];                                                                            \
  auto &a1 = vars.a[1];                                                                            \
  auto &a2 = vars.a[2];                                                                            \
  auto &b0 = *vars.b[0];                                                                           \
  auto &b1 = *vars.b[1]
#define MODEL_VARS                                                                                 \
  DM &m_a0 = vars[0], &m_a1 = vars[1], &m_a2 = vars[2], &m_b0 = vars[3], &m_b1 = vars[4]
inline const char *varName(int i) {
  static const char *n[] = {"a0", "a1", "a2", "b0", "b1"};
  return n[i];
}
struct PlainVars {
  sexp a[3];
  std::unique_ptr<BorrowPtr> b[2];
};
struct Start { // the content at the beginning
  MV m[5];
  size_t cap[2];
};
inline Start genStart(Src &s, bool mat) {
  Start r;
  size_t n = 1 + s.below(5), R = 1 + s.below(3), C = 1 + s.below(3);
  bool mixed = s.below(3) == 0;
  for (int i = 0; i < 5; i++) {
    size_t k = mixed ? 1 + s.below(6) : n;
    if (mat)
      r.m[i] = i >= 3 && BTYPE == 1 ? genVec(s, mixed ? 1 + s.below(R * C) : R * C, Ty::D, SMALL)
                      : genMat(s, R, C, Ty::D, SMALL);
    else
      r.m[i] = genVec(s, k, Ty::D, SMALL);
    for (double &x : r.m[i].v) // zeros are rare
      if (x == 0 && s.below(4))
        x = 1.5;
  }
  r.cap[0] = r.m[3].size();
  r.cap[1] = r.m[4].size();
  return r;
}
template <class X> std::vector<double> valuesOf(X &x) {
  auto o = x.d.get();
  std::vector<double> r;
  for (size_t i = 0; i < o.size(); i++)
    r.push_back(o[i]);
  return r;
}
template <class X> std::vector<double> derivsOf(X &x) {
  auto o = etr::get_derivs(x);
  std::vector<double> r;
  for (size_t i = 0; i < o.size(); i++)
    r.push_back(o[i]);
  return r;
}
} // namespace gen
#endif
