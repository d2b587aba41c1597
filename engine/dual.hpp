// Forward mode derivatives in the reference model: every element carries its value, its
// derivative and bounds for the size of the terms (for the rounding error).
#ifndef DUAL_HPP
#define DUAL_HPP
#include "refmodel.hpp"
namespace ref {
struct Dual {
  double v = 0, d = 0, mv = 0, md = 0;
};
struct DM {
  std::vector<Dual> e;
  bool im = false;
  size_t nr = 0, nc = 0;
  size_t size() const { return e.size(); }
};
inline DM dmOf(const MV &m, double d) {
  DM r;
  for (double x : m.v)
    r.e.push_back({x, d, std::fabs(x), std::fabs(d)});
  r.im = m.im;
  r.nr = m.nr;
  r.nc = m.nc;
  return r;
}
inline DM dconst(const std::vector<double> &v) { return dmOf(vec(v), 0.0); }
inline DM dcolon(int a, int b) {
  DM r;
  for (int i = a; a <= b ? i <= b : i >= b; i += a <= b ? 1 : -1)
    r.e.push_back({(double)i, 0, std::fabs((double)i), 0});
  return r;
}
inline Dual dop(int o, const Dual &a, const Dual &b) {
  Dual r;
  switch (o) {
  case ADD:
    return {a.v + b.v, a.d + b.d, a.mv + b.mv, a.md + b.md};
  case SUB:
    return {a.v - b.v, a.d - b.d, a.mv + b.mv, a.md + b.md};
  case MUL:
    return {a.v * b.v, a.d * b.v + a.v * b.d, a.mv * b.mv, a.md * b.mv + a.mv * b.md};
  case DIV: {
    double q = 1 / std::fabs(b.v), k = 1 + b.mv * q;
    return {a.v / b.v, (a.d * b.v - a.v * b.d) / (b.v * b.v), a.mv * q * k, (a.md * b.mv + a.mv * b.md) * q * q * k * k};
  }
  }
  r.v = op2(o, a.v, b.v);
  // nearly equal numbers: nothing is claimed
  if (a.v != b.v && std::fabs(a.v - b.v) < 1e-8 * (a.mv + b.mv))
    overflow() = true;
  r.mv = 1;
  return r;
}
inline DM dbin(int o, const DM &a, const DM &b) {
  DM r;
  size_t n = std::max(a.size(), b.size());
  for (size_t i = 0; i < n; i++)
    r.e.push_back(dop(o, a.e[i % a.size()], b.e[i % b.size()]));
  r.im = a.im || b.im;
  r.nr = std::max(a.im ? a.nr : 0, b.im ? b.nr : 0);
  r.nc = std::max(a.im ? a.nc : 0, b.im ? b.nc : 0);
  return r;
}
inline DM dsin(DM a) {
  for (auto &x : a.e)
    x = {std::sin(x.v), std::cos(x.v) * x.d, 1 + x.mv, x.md * (1 + x.mv)};
  return a;
}
inline bool sane(const DM &m) {
  for (auto &x : m.e)
    if (!(std::fabs(x.v) < 1e6) || !(std::fabs(x.d) < 1e9) || !(x.mv < 1e9) || !(x.md < 1e12))
      return false;
  return true;
}
inline MV values(const DM &m) {
  MV r;
  for (auto &x : m.e)
    r.v.push_back(x.v);
  r.im = m.im;
  r.nr = m.nr;
  r.nc = m.nc;
  return r;
}
inline std::string dstr(const DM &m) {
  std::ostringstream o;
  o << (m.im ? std::to_string(m.nr) + "x" + std::to_string(m.nc) : "") << "[";
  for (size_t i = 0; i < m.size(); i++)
    o << (i ? " " : "") << m.e[i].v << "'" << m.e[i].d;
  o << "]";
  return o.str();
}
inline void expectDual(pbt::Ctx &c, const std::vector<double> &got, const DM &want, bool deriv, const std::string &what) {
  if (got.size() != want.size())
    c.fail(what + ": " + std::to_string(got.size()) + " elements instead of " + std::to_string(want.size()));
  for (size_t i = 0; i < got.size(); i++) {
    const Dual &w = want.e[i];
    double x = deriv ? w.d : w.v, m = deriv ? w.md : w.mv;
    if (!(std::fabs(got[i] - x) <= 1e-10 * m + 1e-300))
      c.fail(what + ": " + (deriv ? "derivative " : "element ") + std::to_string(i + 1) + " is " + num(got[i]) + " instead of " + num(x) + ", expected " + dstr(want));
  }
}
} // namespace ref
#endif
