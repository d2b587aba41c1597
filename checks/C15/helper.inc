// length, dim, isNA and isInf
#include "etr_pch.hpp"
#include "etrgen.hpp"
using namespace gen;

inline double special(Src &s) {
  switch (s.below(8)) {
  case 0:
    return std::numeric_limits<double>::quiet_NaN();
  case 1:
    return std::numeric_limits<double>::infinity();
  case 2:
    return -std::numeric_limits<double>::infinity();
  case 3:
    return s.pick({1e308, -1e308, 5e-324, 0.0, -0.0, -std::numeric_limits<double>::quiet_NaN(),
                   std::numeric_limits<double>::signaling_NaN()});
  default:
    return genSmall(s);
  }
}
template <class F> MV mapTo(const MV &m, F &&f) {
  MV r;
  r.ty = Ty::B;
  for (double x : m.v)
    r.v.push_back(f(x));
  return r;
}
