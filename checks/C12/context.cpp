// bounds of type bool, ranges as index and in loops
#include "colon.inc"
PAIR(bool, bool, C_SC, C_SC);
PAIR(bool, int, C_SC, C_SC);
PAIR(int, bool, C_SC, C_SC);
PAIR(bool, double, C_SC, C_SC);
PAIR(double, bool, C_SC, C_SC);

static void indexRange(Ctx &c) {
  Src &s = c.s;
  MV m = genVec(s, genSize(s, 50), Ty::D, SMALL);
  auto x = make<double>(m);
  size_t n = m.size();
  int a = 1 + (int)s.below(n), b = 1 + (int)s.below(n);
  MV want;
  for (int i = a; a <= b ? i <= b : i >= b; i += a <= b ? 1 : -1)
    want.v.push_back(m.v[i - 1]);
  c.log([&](auto &o) { o << str(m) << "(" << a << ":" << b << ")"; });
  c.nontrivial(want.size() > 1);
  expectVec(c, etr::subset(x, etr::colon(a, b)), want, "x(a:b)");
  double da = a, db = b;
  expectVec(c, etr::subset(x, etr::colon(da, db)), want, "x(a:b)");
  etr::subset(x, etr::colon(a, b)) = 99.0;
  for (size_t i = 0; i < n; i++)
    if ((int)i + 1 >= std::min(a, b) && (int)i + 1 <= std::max(a, b))
      m.v[i] = 99.0;
  expectVec(c, x, m, "x(a:b) = 99");
  // the range of the whole object
  expectVec(c, etr::subset(x, etr::colon(1, etr::length(x))), m, "x(1:length(x))");
  // sum with the elements of a range
  double sum = 0, ref = 0;
  for (auto i : etr::colon(a, b))
    sum += etr::at(x, i);
  for (int i = a; a <= b ? i <= b : i >= b; i += a <= b ? 1 : -1)
    ref += m.v[i - 1];
  c.require(same(sum, ref), "loop over positions");
}
PBT_SUB("index", 1, indexRange);
// the size of a large range is exact
static void large(Ctx &c) {
  Src &s = c.s;
  int n = (int)s.below(20000), a = (int)s.below(2000) - 1000;
  bool up = s.below(2), dbl = s.below(2);
  c.log([&](auto &o) { o << a << " : " << (up ? a + n : a - n); });
  c.nontrivial(n > 100);
  auto chk = [&](auto r) {
    c.require(r.size() == (size_t)n + 1, "number of elements of a large range");
    for (int i = 0; i <= n; i += 1 + n / 50)
      c.require(r[i] == (up ? a + i : a - i), "element of a large range");
    c.require(r[n] == (up ? a + n : a - n), "last element of a large range");
  };
  if (dbl)
    chk(etr::colon((double)a, (double)(up ? a + n : a - n)));
  else
    chk(etr::colon(a, up ? a + n : a - n));
}
PBT_SUB("large", 0.1, large);
// bounds which are decimal fractions: only the difference of the bounds decides the number of elements
static void fractions(Ctx &c) {
  Src &s = c.s;
  int den = s.pick({2, 3, 4, 5, 7, 10, 10, 100, 1000});
  long ka = (long)s.below(20 * den + 1) - 10 * den;
  long span = (long)s.below(s.chance(1, 3) ? 400 : 40);
  bool up = s.below(2), whole = !s.chance(1, 4);
  double a = (double)ka / den, b = (double)(ka + (up ? span : -span) * den) / den;
  if (!whole)
    b += (up ? 1 : -1) * (double)(1 + s.below(den)) / (den + 2);
  double diff = b >= a ? b - a : a - b;
  size_t lo = (size_t)diff + 1, hi = lo;
  if (diff != std::trunc(diff)) {
    // NOTE: within rounding of a whole number both sizes are fine
    lo = (size_t)(diff - 1e-9 < 0 ? 0 : diff - 1e-9) + 1;
    hi = (size_t)(diff + 1e-9) + 1;
  }
  c.log([&](auto &o) { o << "colon(" << num(a) << ", " << num(b) << ")"; });
  c.label(diff == std::trunc(diff) ? "difference of the bounds is whole" : "difference of the bounds is a fraction");
  c.nontrivial(diff >= 1 && a != std::trunc(a));
  auto chk = [&](auto &&r, const char *kind) {
    if (r.size() < lo || r.size() > hi)
      return c.fail(std::string("colon(") + num(a) + ", " + num(b) + ") of " + kind + " has " + std::to_string(r.size()) + " elements instead of " + std::to_string(lo));
    for (size_t i = 0; i < r.size(); i++) {
      double want = b >= a ? a + (double)i : a - (double)i, got = r[i];
      if (!(std::fabs(got - want) <= 1e-11 * (1 + std::fabs(a) + std::fabs(b))))
        return c.fail(std::string("colon(") + num(a) + ", " + num(b) + ") of " + kind + "[" + std::to_string(i) + "] is " + num(got) + " instead of " + num(want));
    }
  };
  chk(etr::colon(a, b), "numbers");
  auto x = make<double>(vec({a})), y = make<double>(vec({b}));
  chk(etr::colon(x, y), "objects");
  chk(etr::colon(a, y), "a number and an object");
  chk(etr::colon(x, b), "an object and a number");
  chk(etr::colon(x + 0.0, y), "a calculation and an object");
  sexp z;
  z = etr::colon(x, b);
  chk(z, "an assigned range");
}
PBT_SUB("fractions", 0.5, fractions);
