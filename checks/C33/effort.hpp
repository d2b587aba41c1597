// effort of evaluations: the CPU time of this thread is measured
#ifndef EFFORT_HPP
#define EFFORT_HPP
#include "derivprog.hpp"
#include <ctime>
namespace effort {
using pbt::Ctx;
using pbt::Src;
inline double cpu() {
  timespec t;
  clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t);
  return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
struct Watch {
  double t0 = cpu();
  double used() const { return cpu() - t0; }
};
// a calculation with at most 40 operands and eight elements takes about a
// millisecond without optimisation
constexpr double LIMIT = 0.5;
inline void within(Ctx &c, double used, double limit, const std::string &what) {
  if (used > limit)
    c.fail(what + " takes " + std::to_string(used) + " s of CPU time");
}
inline bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
// operands: the same number of elements or one
struct Leaves {
  size_t L = 1, nr = 1, nc = 1;
  bool mat = false;
  std::vector<double> v[4];
  double at(int k, size_t i) const { return v[k][i % v[k].size()]; }
};
inline Leaves genLeaves(Src &s, bool mat) {
  Leaves r;
  r.mat = mat;
  if (mat) {
    r.nr = 1 + s.below(3);
    r.nc = 1 + s.below(3);
    r.L = r.nr * r.nc;
  } else
    r.L = 1 + s.below(8);
  for (int k = 0; k < 4; k++) {
    size_t n = k && !mat && s.below(4) == 3 ? 1 : r.L;
    for (size_t i = 0; i < n; i++)
      r.v[k].push_back(0.5 + (double)s.below(9) / 8.0);
  }
  return r;
}
} // namespace effort
#endif
