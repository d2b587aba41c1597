// generated time series
#ifndef SERIES_HPP
#define SERIES_HPP
#include "etrgen.hpp"
namespace gen {
struct Series {
  MV t, y;
};
inline Series genSeries(Src &s, size_t n, bool integers = false) {
  Series r;
  double t = integers ? (double)s.below(20) - 10 : genSmall(s);
  int kind = (int)s.below(3);
  for (size_t i = 0; i < n; i++) {
    r.t.v.push_back(t);
    r.y.v.push_back(integers ? (double)s.below(41) - 20 : genSmall(s));
    t += integers ? 1.0 + s.below(4)
                  : kind == 0 ? 1.0 : kind == 1 ? s.pick({0.25, 0.5, 1.0, 2.0, 7.5}) : (1 + s.below(1000)) / 64.0;
  }
  return r;
}
// a time: at a point, between two points, at the boundary or outside
enum Where { W_POINT, W_BETWEEN, W_BEFORE, W_AFTER, W_FIRST, W_LAST };
inline double genTime(Src &s, const Series &r, int &where, size_t &k) {
  size_t n = r.t.size();
  where = s.pick({W_BETWEEN, W_BETWEEN, W_BETWEEN, W_BETWEEN, W_POINT, W_POINT, W_BEFORE, W_AFTER, W_FIRST, W_LAST});
  k = s.below(n - (n > 1 ? 1 : 0));
  switch (where) {
  case W_POINT:
    return r.t.v[k = s.below(n)];
  case W_FIRST:
    return r.t.v[k = 0];
  case W_LAST:
    return r.t.v[k = n - 1];
  case W_BEFORE:
    return r.t.v[0] - s.pick({0.25, 1.0, 100.0, 1e9, (double)INFINITY});
  case W_AFTER:
    return r.t.v[n - 1] + s.pick({0.25, 1.0, 100.0, 1e9, (double)INFINITY});
  default:
    break;
  }
  if (n == 1)
    return r.t.v[0];
  double f = (1 + s.below(63)) / 64.0;
  return r.t.v[k] + f * (r.t.v[k + 1] - r.t.v[k]);
}
inline const char *whereName(int w) {
  static const char *n[] = {"at a point", "between points", "before", "after", "first point", "last point"};
  return n[w];
}
inline bool near(double a, double b, double scale, double tol = 1e-9) {
  return std::fabs(a - b) <= tol * (1.0 + scale);
}
inline double maxAbs(const MV &m) {
  double r = 0;
  for (double x : m.v)
    r = std::max(r, std::fabs(x));
  return r;
}
} // namespace gen
#endif
