// sizes given by every number type
#include "etr_pch.hpp"
#include "numtypes.hpp"
using namespace gen;
static void sizes(Ctx &c) {
  Src &s = c.s;
  double n = (double)(1 + s.below(20)), k = (double)(1 + s.below(9));
  if (s.chance(1, 6))
    n = s.pick({0.0, -1.0, 0.5, 2.5});
  int tn = ntKind(s, n), tk = ntKind(s, k);
  std::string what = num(n) + " as " + ntName(tn) + ", " + num(k) + " as " + ntName(tk);
  c.log([&](auto &o) { o << what; });
  c.nontrivial(n >= 1);
  double v = genReal(s);


  ntCall(tn, n, [&](auto a) {
    if (n < 1) {
      if (!throws([&]() { (void)etr::vector_numeric(a); }) || !throws([&]() { (void)etr::vector_integer(a); }) ||
          !throws([&]() { (void)etr::vector_logical(a); }))
        c.fail("a vector of the size " + what + " is accepted");
    } else {
      std::vector<double> zero((size_t)n, 0.0);
      expectVec(c, etr::vector_numeric(a), vec(zero), "vector_numeric " + what);
      expectVec(c, etr::vector_integer(a), vec(zero, Ty::I), "vector_integer " + what);
      expectVec(c, etr::vector_logical(a), vec(zero, Ty::B), "vector_logical " + what);
    }
    ntCall(tk, k, [&](auto b) {
      auto run = [&]() { return etr::matrix(double(v), std::move(a), std::move(b)); };
      if (n < 1) {
        if (!throws([&]() { (void)run(); }))
          c.fail("a matrix of the size " + what + " is accepted");
        return;
      }
      size_t r = (size_t)n, q = (size_t)k;
      expectVec(c, run(), mat(std::vector<double>(r * q, v), r, q), "matrix " + what);
    });
  });
}
PBT_SUB("types", 0.3, sizes);
