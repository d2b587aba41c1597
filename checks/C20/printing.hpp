// captures and reads the printed output
#include "etr_pch.hpp"
#include "derivprog.hpp"
#include "etrgen.hpp"
using namespace gen;

struct Capture { // everything which is written to std::cout
  std::ostringstream o;
  std::streambuf *old;
  Capture() : old(std::cout.rdbuf(o.rdbuf())) {}
  ~Capture() { std::cout.rdbuf(old); }
};
inline bool &formatChanged() { // the format of the stream after a call of print
  static bool x = false;
  return x;
}
template <class F> std::string printed(F &&f) {
  Capture cap;
  const auto flags = std::cout.flags();
  const auto prec = std::cout.precision();
  f();
  std::cout.flush();
  formatChanged() = std::cout.flags() != flags || std::cout.precision() != prec || std::cout.width() != 0 || !std::cout.good();
  std::cout.flags(flags);
  std::cout.precision(prec);
  std::cout.width(0);
  std::cout.clear();
  return cap.o.str();
}
inline std::vector<std::vector<std::string>> lines(const std::string &t) {
  std::vector<std::vector<std::string>> r;
  std::istringstream in(t);
  std::string l;
  while (std::getline(in, l)) {
    std::istringstream w(l);
    std::vector<std::string> v;
    std::string x;
    while (w >> x)
      v.push_back(x);
    if (v.size())
      r.push_back(v);
  }
  return r;
}
// one printed element; logical values are always printed as a text
inline bool readElem(const std::string &t, double want, int prec, bool logical) {
  if (logical || t == "true" || t == "false")
    return t == (want != 0 ? "true" : "false");
  char *end = nullptr;
  double got = std::strtod(t.c_str(), &end);
  if (*end || end == t.c_str())
    return false;
  if (std::isnan(want) || std::isinf(want))
    return same(got, want);
  if (prec >= 17)
    return got == want;
  double tol = 0.51 * std::pow(10.0, 1 - prec) * std::fabs(want);
  return std::fabs(got - want) <= tol || (std::fabs(want) < 1e-300 && std::fabs(got - want) < 1e-300);
}
struct Precision {
  std::streamsize old;
  std::ios_base::fmtflags flags;
  int prec;
  explicit Precision(Src &s) : old(std::cout.precision()), flags(std::cout.flags()), prec(s.below(3) == 0 ? 6 : 17) {
    std::cout.precision(prec);
    if (s.chance(1, 3)) // what is printed does not depend on it
      std::cout << std::boolalpha;
  }
  ~Precision() {
    std::cout.precision(old);
    std::cout.flags(flags);
  }
};
inline void expectText(Ctx &c, const std::string &out, const MV &want, int prec, const std::string &what) {
  auto l = lines(out);
  auto bad = [&](const std::string &m) { c.fail(what + " " + str(want) + ": " + m + ", the output is\n" + out); };
  const bool lg = want.ty == Ty::B;
  if (formatChanged())
    bad("the format of the stream was changed");
  if (out.empty() || out.back() != '\n')
    bad("the output does not end with a new line");
  if (!want.im) {
    std::vector<std::string> all;
    for (auto &x : l)
      all.insert(all.end(), x.begin(), x.end());
    if (all.size() != want.size())
      bad(std::to_string(all.size()) + " elements are printed");
    for (size_t i = 0; i < all.size(); i++)
      if (!readElem(all[i], want.v[i], prec, lg))
        bad("element " + std::to_string(i + 1) + " is printed as " + all[i]);
    if (want.size() && l.size() != 1)
      bad("the elements are not in one line");
  } else {
    if (l.size() != want.nr)
      bad(std::to_string(l.size()) + " rows are printed");
    for (size_t i = 0; i < want.nr; i++) {
      if (l[i].size() != want.nc)
        bad("row " + std::to_string(i + 1) + " has " + std::to_string(l[i].size()) + " elements");
      for (size_t j = 0; j < want.nc; j++)
        if (!readElem(l[i][j], want.v[j * want.nr + i], prec, lg))
          bad("row " + std::to_string(i + 1) + " column " + std::to_string(j + 1) + " is printed as " + l[i][j]);
    }
  }
}
inline void expectStream(Ctx &c, const std::string &out, const MV &want, int prec, const std::string &what) {
  auto l = lines(out);
  std::vector<std::string> all;
  for (auto &x : l)
    all.insert(all.end(), x.begin(), x.end());
  std::vector<std::string> num;
  for (auto &t : all) // brackets and names are no elements
    if (t != "Vec" && t != "[" && t != "]")
      num.push_back(t);
  if (num.size() != want.size())
    c.fail(what + " " + str(want) + ": " + std::to_string(num.size()) + " elements are written: " + out);
  for (size_t i = 0; i < num.size(); i++)
    if (!readElem(num[i], want.v[i], prec, want.ty == Ty::B && (num[i] == "true" || num[i] == "false")))
      c.fail(what + " " + str(want) + ": element " + std::to_string(i + 1) + " is written as " + num[i] + ": " + out);
}
template <class X> void printCase(Ctx &c, X &&x, const MV &m, const std::string &what) {
  Precision p(c.s);
  std::string a = printed([&]() { etr::print(x); });
  MV typed = m; // parts of logical objects have numeric elements
  if constexpr (std::is_arithmetic_v<std::remove_cvref_t<X>>)
    typed.ty = std::is_same_v<std::remove_cvref_t<X>, bool> ? Ty::B : Ty::D;
  else
    typed.ty = readBack(x).ty;
  expectText(c, a, typed, p.prec, "print of " + what);
  if constexpr (!std::is_arithmetic_v<std::remove_cvref_t<X>>) {
    expectVec(c, x, m, "after printing " + what);
    std::ostringstream o;
    o.precision(p.prec);
    o << x;
    expectStream(c, o.str(), m, p.prec, "output of " + what);
    expectVec(c, x, m, "after writing " + what);
  }
  std::string b = printed([&]() { etr::print(x); });
  if (lines(a) != lines(b))
    c.fail("print of " + what + " twice: the output differs:\n" + a + b);
}
