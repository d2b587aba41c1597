#include "etr_pch.hpp"
#include "etrgen.hpp"
using namespace gen;

enum TK { T_INT, T_DBL, T_SIZE, T_BOOL, T_VDBL, T_VINT, T_VBOOL, T_COCA, T_COLON, T_SUB, T_COUNT };
inline bool tkSigned(int k) { return k != T_SIZE && k != T_BOOL && k != T_VBOOL; }
inline bool tkFrac(int k) { return k == T_DBL || k == T_VDBL || k == T_COCA || k == T_SUB; }
// the number which an object of this kind gets for n
inline double tkNum(int k, double n) {
  if (k == T_BOOL || k == T_VBOOL)
    return n >= 1 ? 1 : 0;
  if (k == T_SIZE && n < 0)
    return 0;
  return tkFrac(k) ? n : std::trunc(n);
}
// calls f with an object of the value n (a temporary); more: further elements are allowed
template <int K, class F> void dimObj(Src &s, double n, bool more, F &&f) {
  if constexpr (K == T_INT) {
    f((int)n);
  } else if constexpr (K == T_DBL) {
    f(double(n));
  } else if constexpr (K == T_SIZE) {
    f((size_t)n);
  } else if constexpr (K == T_BOOL) {
    f(n >= 1);
  } else if constexpr (K == T_VDBL) {
    f(make<double>(ref::vec(more && s.below(2) ? std::vector<double>{n, 7.0, 0.0} : std::vector<double>{n})));
  } else if constexpr (K == T_VINT) {
    f(make<int>(ref::vec({n})));
  } else if constexpr (K == T_VBOOL) {
    f(make<bool>(ref::vec({n >= 1 ? 1.0 : 0.0})));
  } else if constexpr (K == T_COCA) {
    f(etr::coca(n));
  } else if constexpr (K == T_COLON) {
    f(etr::colon((int)n, (int)n));
  } else {
    auto x = make<double>(ref::vec({5.0, n}));
    f(etr::subset(x, 2));
  }
}
template <class F> void anyDim(Src &s, int k, double n, bool more, F &&f) {
  switch (k) {
  case T_INT: return dimObj<T_INT>(s, n, more, f);
  case T_DBL: return dimObj<T_DBL>(s, n, more, f);
  case T_SIZE: return dimObj<T_SIZE>(s, n, more, f);
  case T_BOOL: return dimObj<T_BOOL>(s, n, more, f);
  case T_VDBL: return dimObj<T_VDBL>(s, n, more, f);
  case T_VINT: return dimObj<T_VINT>(s, n, more, f);
  case T_VBOOL: return dimObj<T_VBOOL>(s, n, more, f);
  case T_COCA: return dimObj<T_COCA>(s, n, more, f);
  case T_COLON: return dimObj<T_COLON>(s, n, more, f);
  case T_SUB: return dimObj<T_SUB>(s, n, more, f);
  }
}
