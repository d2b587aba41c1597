// The reference model: plain vectors of double with dimensions, written
// independently of the library.
#ifndef REFMODEL_HPP
#define REFMODEL_HPP
#include "pbt.hpp"
#include <cmath>
#include <iomanip>
#include <string>
#include <type_traits>
#include <vector>

namespace ref {
using std::size_t;
using std::string;

enum class Ty { B, I, D }; // logical < integer < numeric

struct MV {
  std::vector<double> v;
  bool im = false;
  size_t nr = 0, nc = 0;
  Ty ty = Ty::D;
  bool scalar = false;
  size_t size() const { return v.size(); }
};
inline MV vec(std::vector<double> v, Ty ty = Ty::D) {
  MV m;
  m.v = std::move(v);
  m.ty = ty;
  return m;
}
inline MV mat(std::vector<double> v, size_t r, size_t c, Ty ty = Ty::D) {
  MV m;
  m.v = std::move(v);
  m.im = true;
  m.nr = r;
  m.nc = c;
  m.ty = ty;
  return m;
}
inline MV scal(double v, Ty ty = Ty::D) {
  MV m;
  m.v = {v};
  m.ty = ty;
  m.scalar = true;
  return m;
}

inline string num(double x) {
  std::ostringstream o;
  o << std::setprecision(17) << x;
  return o.str();
}
inline string str(const MV &m, size_t max = 24) {
  std::ostringstream o;
  if (m.im)
    o << m.nr << "x" << m.nc << " ";
  o << (m.ty == Ty::D ? "" : m.ty == Ty::I ? "int" : "bool");
  if (m.scalar) {
    o << " " << num(m.v[0]);
    return o.str();
  }
  o << "[";
  for (size_t i = 0; i < m.v.size() && i < max; i++)
    o << (i ? " " : "") << num(m.v[i]);
  if (m.v.size() > max)
    o << " ... (" << m.v.size() << ")";
  o << "]";
  return o.str();
}

inline double conv(double x, Ty t) { // conversion to another type
  if (t == Ty::I)
    return std::trunc(x);
  if (t == Ty::B)
    return x != 0.0;
  return x;
}
inline MV convTo(MV m, Ty t) {
  for (auto &x : m.v)
    x = conv(x, t);
  m.ty = t;
  return m;
}

// set if nothing is claimed about the result of a calculation: an integer which is not an
// int, or the equality of numbers which differ by exactly the tolerance
inline bool &overflow() {
  static bool b = false;
  return b;
}

enum Op { ADD, SUB, MUL, DIV, POW, EQ, NE, LT, LE, GT, GE };
inline const char *opName(int o) {
  static const char *n[] = {"+", "-", "*", "/", "^", "==", "!=", "<", "<=", ">", ">="};
  return n[o];
}
inline double op2(int o, double a, double b) {
  if ((o == EQ || o == NE) && std::fabs(std::fabs(a - b) - 1e-3) < 1e-8)
    overflow() = true;
  switch (o) {
  case ADD:
    return a + b;
  case SUB:
    return a - b;
  case MUL:
    return a * b;
  case DIV:
    return a / b;
  case POW:
    return std::pow(a, b);
  case EQ:
    return a == b || std::fabs(a - b) < 1e-3;
  case NE:
    return !(a == b || std::fabs(a - b) < 1e-3);
  case LT:
    return a < b;
  case LE:
    return a <= b;
  case GT:
    return a > b;
  case GE:
    return a >= b;
  }
  return 0;
}
inline Ty opTy(int o, Ty a, Ty b) {
  if (o >= EQ)
    return Ty::B;
  if (o == DIV || o == POW)
    return Ty::D;
  if (a == Ty::D || b == Ty::D)
    return Ty::D;
  return Ty::I;
}
inline MV apply2(int o, const MV &a, const MV &b) {
  MV r;
  size_t n = a.size() == 0 || b.size() == 0 ? 0 : std::max(a.size(), b.size());
  for (size_t i = 0; i < n; i++)
    r.v.push_back(op2(o, a.v[i % a.size()], b.v[i % b.size()]));
  r.im = a.im || b.im;
  r.nr = std::max(a.im ? a.nr : 0, b.im ? b.nr : 0);
  r.nc = std::max(a.im ? a.nc : 0, b.im ? b.nc : 0);
  r.ty = opTy(o, a.ty, b.ty);
  if (r.ty == Ty::I)
    for (double &x : r.v) {
      x += 0.0; // integers have no negative zero
      if (std::fabs(x) > 2e9)
        overflow() = true;
    }
  return r;
}

enum Fn { NEG, SIN, ASIN, SINH, COS, ACOS, COSH, TAN, ATAN, TANH, LN, SQRT, EXP };
inline const char *fnName(int f) {
  static const char *n[] = {"-",       "sinus",    "asinus",  "sinush",
                            "cosinus", "acosinus", "cosinush", "tangens",
                            "atangens", "tangensh", "ln",      "sqroot", "exp"};
  return n[f];
}
inline double fn1(int f, double x) {
  switch (f) {
  case NEG:
    return -x;
  case SIN:
    return std::sin(x);
  case ASIN:
    return std::asin(x);
  case SINH:
    return std::sinh(x);
  case COS:
    return std::cos(x);
  case ACOS:
    return std::acos(x);
  case COSH:
    return std::cosh(x);
  case TAN:
    return std::tan(x);
  case ATAN:
    return std::atan(x);
  case TANH:
    return std::tanh(x);
  case LN:
    return std::log(x);
  case SQRT:
    return std::sqrt(x);
  case EXP:
    return std::exp(x);
  }
  return 0;
}
inline MV apply1(int f, MV a) {
  for (auto &x : a.v)
    x = fn1(f, x);
  a.ty = f == NEG ? (a.ty == Ty::D ? Ty::D : Ty::I) : Ty::D;
  if (a.ty == Ty::I)
    for (auto &x : a.v)
      x += 0.0;
  return a;
}

// floating point equality: the last bits may differ, nothing else. With 0 the
// numbers have to be equal, with EXACTLY also the sign of zero
constexpr double EXACTLY = -1.0;
inline bool same(double a, double b, double rtol = 1e-11) {
  if (std::isnan(a) || std::isnan(b))
    return std::isnan(a) && std::isnan(b);
  if (a == b)
    return rtol >= 0 || std::signbit(a) == std::signbit(b);
  if (std::isinf(a) || std::isinf(b))
    return false;
  return std::fabs(a - b) <= rtol * std::max(std::fabs(a), std::fabs(b));
}

// reads an object of the library through its public interface
template <class V> MV readBack(const V &x) {
  MV m;
  using E = std::remove_cvref_t<decltype(x[0])>;
  m.ty = std::is_same_v<E, bool> ? Ty::B : std::is_same_v<E, int> ? Ty::I : Ty::D;
  for (size_t i = 0; i < x.size(); i++)
    m.v.push_back(static_cast<double>(x[i]));
  m.im = x.im();
  if (m.im) {
    m.nr = x.nr();
    m.nc = x.nc();
  }
  return m;
}

inline void expectMV(pbt::Ctx &c, const MV &got, const MV &want, const string &what,
                     bool dims = true, double rtol = 1e-11) {
  if (got.size() != want.size())
    c.fail(what + ": " + std::to_string(got.size()) + " elements instead of " +
           std::to_string(want.size()) + ", got " + str(got) + " expected " +
           str(want));
  for (size_t i = 0; i < got.size(); i++)
    if (!same(got.v[i], want.v[i], rtol))
      c.fail(what + ": element " + std::to_string(i + 1) + " is " + num(got.v[i]) +
             " instead of " + num(want.v[i]) + ", got " + str(got) + " expected " +
             str(want));
  if (dims) {
    if (got.im != want.im)
      c.fail(what + (want.im ? ": the result has to be a matrix"
                             : ": the result must not be a matrix"));
    if (want.im && (got.nr != want.nr || got.nc != want.nc))
      c.fail(what + ": dimensions " + std::to_string(got.nr) + "x" +
             std::to_string(got.nc) + " instead of " + std::to_string(want.nr) +
             "x" + std::to_string(want.nc));
  }
}
template <class V>
void expectVec(pbt::Ctx &c, const V &got, const MV &want, const string &what,
               bool dims = true, double rtol = 1e-11) {
  expectMV(c, readBack(got), want, what, dims, rtol);
}

// ---------------------------------------------------------------- generators
using pbt::Ctx;
using pbt::Src;

inline double genSmall(Src &s) { // dyadic number, exact in calculations
  int64_t a = s.range(0, 40);
  double x = (a % 2 ? -1.0 : 1.0) * static_cast<double>((a + 1) / 2);
  return x + s.pick({0.0, 0.0, 0.0, 0.5, 0.25});
}
inline double genReal(Src &s) {
  switch (s.below(6)) {
  case 0:
  case 1:
    return genSmall(s);
  case 2:
    return static_cast<double>(s.range(0, 2000000)) / 1000.0 - 1000.0;
  case 3:
    return static_cast<double>(s.range(0, 4000)) / 1999.0 - 1.0;
  case 4:
    return std::ldexp(1.0 + s.below(1u << 20) / 1048576.0,
                      static_cast<int>(s.range(-30, 30))) *
           (s.below(2) ? -1 : 1);
  default:
    return genSmall(s);
  }
}
inline double genSpecial(Src &s) {
  return s.pick({0.0, -0.0, 1e300, -1e300, 1e-300, std::numeric_limits<double>::infinity(),
                 -std::numeric_limits<double>::infinity(),
                 std::numeric_limits<double>::quiet_NaN(), 1e17, -1e17, 1.0, -1.0,
                 std::numeric_limits<double>::denorm_min(),
                 std::numeric_limits<double>::max(), 0.1, 1e9, -2147483648.0});
}
enum ValClass { SMALL, REAL, SPECIAL, NEAR, EXACT };
// numbers which are nearly equal
inline double genNear(Src &s) {
  double x = s.pick({0.0, 1.0, 0.0, -1.0, 2.0, 1000.0, 1e6, -1e6});
  return x + s.pick({0.0, 4e-4, -4e-4, 1.6e-3, 0.0, -1.6e-3});
}
inline double genVal(Src &s, int cls) {
  if (cls == EXACT) // differences of exactly the tolerance
    return s.pick({0.0, 1e-3, -1e-3, 2e-3, 1.0, 1.001, 0.999});
  if (cls == NEAR)
    return s.chance(1, 10) ? s.pick({std::numeric_limits<double>::infinity(),
                                     -std::numeric_limits<double>::infinity(), 1e300, -1e300,
                                     std::numeric_limits<double>::quiet_NaN(),
                                     2147483647.0, -2147483648.0})
                           : genNear(s);
  if (cls == SMALL)
    return genSmall(s);
  if (cls == SPECIAL && s.chance(1, 3))
    return genSpecial(s);
  return genReal(s);
}
inline double genOf(Src &s, Ty t, int cls) {
  if (t == Ty::B)
    return static_cast<double>(s.below(2));
  if (t == Ty::I) {
    if (cls == NEAR)
      return s.pick({0.0, 1.0, -1.0, 2.0, 1000.0, 1e6, -1e6, 2147483647.0, -2147483648.0, 2147483646.0});
    if (cls == SMALL || s.below(2))
      return static_cast<double>(static_cast<int64_t>(s.below(41)) - 20);
    return static_cast<double>(static_cast<int64_t>(s.below(60001)) - 30000);
  }
  return genVal(s, cls);
}
// number of elements; small ones are frequent, large ones and sizes at which
// the reserved memory has to grow are possible
inline size_t genSize(Src &s, size_t maxLarge = 300) {
  switch (s.below(20)) {
  default:
    return 1 + s.below(6);
  case 12:
  case 13:
  case 14:
  case 15:
    return 1 + s.below(14);
  case 16:
  case 17:
    return std::min<size_t>(maxLarge, 1 + s.below(40));
  case 18: {
    size_t p = size_t(1) << s.range(3, 9);
    return std::min<size_t>(maxLarge, p - 1 + s.below(3));
  }
  case 19:
    if (s.chance(1, 8)) { // rarely really large ones
      if (maxLarge >= 60 && s.chance(1, 24)) // more than a short can count
        return 65530 + s.below(700);
      size_t m = 8 * maxLarge;
      if (s.below(2))
        return 1 + s.below(m);
      size_t p = size_t(1) << s.range(6, 12);
      return std::min(m, p - 1 + s.below(3));
    }
    return 1 + s.below(maxLarge);
  }
}
// number of rows or columns: mostly small
inline size_t genDim(Src &s, size_t usual = 5) {
  switch (s.below(64)) {
  default:
    return 1 + s.below(usual);
  case 58:
  case 59:
  case 60:
  case 61:
    return 1 + s.below(13);
  case 62:
    return 1 + s.below(40);
  case 63:
    return s.chance(1, 4) ? 250 + s.below(20) : 1 + s.below(usual);
  }
}
inline MV genVec(Src &s, size_t n, Ty t = Ty::D, int cls = REAL) {
  MV m;
  m.ty = t;
  if (n > 5000) { // one block of numbers is used again and again
    const size_t len = 257;
    for (size_t i = 0; i < len; i++)
      m.v.push_back(genOf(s, t, cls));
    for (size_t i = len; i < n; i++)
      m.v.push_back(m.v[(i + i / len) % len]);
    return m;
  }
  for (size_t i = 0; i < n; i++)
    m.v.push_back(genOf(s, t, cls));
  return m;
}
inline MV genMat(Src &s, size_t r, size_t c, Ty t = Ty::D, int cls = REAL) {
  MV m = genVec(s, r * c, t, cls);
  m.im = true;
  m.nr = r;
  m.nc = c;
  return m;
}

// runs f and tells whether the library refused it
template <class F> bool throws(F &&f, string *msg = nullptr) {
  try {
    f();
  } catch (const pbt::Failure &) {
    throw;
  } catch (const std::runtime_error &e) {
    if (msg)
      *msg = e.what();
    return true;
  }
  return false;
}

} // namespace ref
#endif
