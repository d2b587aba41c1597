#include "etr_pch.hpp"
#include "numtypes.hpp"
#include "series.hpp"
using namespace gen;

static double reference(const Series &r, double t) {
  size_t n = r.t.size();
  if (t <= r.t.v[0])
    return r.y.v[0];
  for (size_t i = 1; i < n; i++)
    if (t < r.t.v[i]) {
      long double f = ((long double)t - r.t.v[i - 1]) / ((long double)r.t.v[i] - r.t.v[i - 1]);
      return (double)(r.y.v[i - 1] * (1 - f) + r.y.v[i] * f);
    }
  return r.y.v[n - 1];
}
// all kinds of objects as time
template <class F> static void timeKinds(Src &s, double t, F &&f) {
  switch (s.below(6)) {
  case 0: {
    auto x = make<double>(ref::vec({t}));
    return f(x, "variable");
  }
  case 1: {
    const auto x = make<double>(ref::vec({t}));
    return f(x, "constant variable");
  }
  case 2: {
    std::vector<double> mem = {t};
    BorrowPtr x(mem.data(), 1);
    return f(x, "borrowed");
  }
  case 3: {
    auto v = make<double>(ref::vec({5.0, t, 1.0}));
    auto x = etr::subset(v, 2);
    return f(x, "subset");
  }
  case 4: {
    const double x = t;
    return f(x, "constant");
  }
  default:
    return f(t, "double");
  }
}
template <class TT, class TY, int BORROW> static void li(Ctx &c) {
  Src &s = c.s;
  bool ints = std::is_same_v<TT, int> || std::is_same_v<TY, int>;
  Series r = genSeries(s, 1 + genSize(s, 60), ints);
  std::vector<double> mt = r.t.v, my = r.y.v;
  auto run = [&](auto &tv, auto &yv) {
    int q = 1 + (int)s.below(6);
    for (int k = 0; k < q; k++) {
      int where;
      size_t i;
      double t = genTime(s, r, where, i);
      double want = reference(r, t);
      c.log([&](auto &o) { o << "li(" << num(t) << ", " << str(r.t, 8) << ", " << str(r.y, 8) << ") " << whereName(where) << "; "; });
      c.label(whereName(where));
      if (where == W_BETWEEN)
        c.nontrivial();
      timeKinds(s, t, [&](auto &x, const char *kind) {
        double got = etr::li(x, tv, yv);
        if (where == W_BETWEEN ? !near(got, want, maxAbs(r.y)) : !(got == want))
          c.fail(std::string("li(") + num(t) + ") is " + num(got) + " instead of " + num(want) + " (" + whereName(where) + ", " + kind + ")");
      });
      if (t == std::trunc(t) && std::fabs(t) < 1e6) {
        int ti = (int)t;
        c.require(near(etr::li(ti, tv, yv), want, maxAbs(r.y)), "li with an int as time");
      }
      // the other types of numbers
      int nt = std::fabs(t) < 1e4 ? ntKind(s, t) : 4;
      double at = nt == 4 ? (double)(float)t : t;
      ntCall(nt, at, [&](auto x) {
        double g = etr::li(x, tv, yv), w = reference(r, at);
        if (!near(g, w, maxAbs(r.y)))
          c.fail(std::string("li(") + ntName(nt) + " " + num(at) + ") is " + num(g) + " instead of " + num(w));
      });
      // a result is used
      sexp z;
      z = etr::coca(1.0, etr::li(t, tv, yv)) * 2.0;
      c.require(z.size() == 2 && near(z[1], 2 * want, 2 * maxAbs(r.y)), "coca(1, li) * 2");
    }
    expectMV(c, readBack(tv), r.t, "time points");
    expectMV(c, readBack(yv), r.y, "values");
  };
  if constexpr (BORROW == 1) {
    BorrowPtr tv(mt.data(), mt.size()), yv(my.data(), my.size());
    run(tv, yv);
  } else if constexpr (BORROW == 2) {
    const auto tv = make<TT>(r.t);
    const auto yv = make<TY>(r.y);
    run(tv, yv);
  } else {
    auto tv = make<TT>(r.t);
    auto yv = make<TY>(r.y);
    run(tv, yv);
  }
}
PBT_SUB("li", 2, (li<double, double, 0>));
PBT_SUB("li_int_times", 0.5, (li<int, double, 0>));
PBT_SUB("li_int_values", 0.5, (li<double, int, 0>));
PBT_SUB("li_int", 0.5, (li<int, int, 0>));
PBT_SUB("li_borrowed", 0.5, (li<double, double, 1>));
PBT_SUB("li_const", 0.5, (li<double, double, 2>));

static void refused(Ctx &c) {
  Src &s = c.s;
  Series r = genSeries(s, 1 + genSize(s, 20));
  Series q = genSeries(s, 1 + genSize(s, 20));
  if (q.t.size() == r.t.size())
    q.y.v.pop_back();
  if (q.y.v.empty())
    return;
  auto tv = make<double>(r.t);
  auto yv = make<double>(q.y);
  int where;
  size_t i;
  double t = genTime(s, r, where, i);
  c.log([&](auto &o) { o << "li(" << num(t) << ") with " << r.t.size() << " times and " << q.y.size() << " values"; });
  c.nontrivial();
  if (!throws([&]() { etr::li(t, tv, yv); }))
    c.fail("times and values of different lengths are accepted");
  auto tt = make<double>(ref::vec({t}));
  if (!throws([&]() { etr::li(tt, tv, yv); }))
    c.fail("times and values of different lengths are accepted");
  auto t2 = make<double>(ref::vec({t, t}));
  auto y2 = make<double>(r.y);
  if (!throws([&]() { etr::li(t2, tv, y2); }))
    c.fail("two times at once are accepted");
}
PBT_SUB("refused", 0.3, refused);
// the value at a missing time is missing, whatever was calculated before
static void missing(Ctx &c) {
  Src &s = c.s;
  Series r = genSeries(s, 1 + genSize(s, 20));
  auto tv = make<double>(r.t);
  auto yv = make<double>(r.y);
  const auto ctv = make<double>(r.t);
  c.log([&](auto &o) { o << "li(NaN, " << str(r.t, 8) << ", " << str(r.y, 8) << ")"; });
  c.nontrivial();
  for (int k = 0; k < 3; k++) {
    int where;
    size_t i;
    etr::li(genTime(s, r, where, i), tv, yv);
    timeKinds(s, std::nan(""), [&](auto &x, const char *kind) {
      double got = etr::li(x, tv, yv), got2 = etr::li(x, ctv, yv);
      if (!std::isnan(got) || !std::isnan(got2))
        c.fail(std::string("li(NaN) is ") + num(got) + " (" + kind + ")");
    });
    double f = etr::li(std::nanf(""), tv, yv);
    c.require(std::isnan(f), "li(NaN) with a float");
  }
}
PBT_SUB("missing_time", 0.3, missing);
// straight lines are exact everywhere
static void lines(Ctx &c) {
  Src &s = c.s;
  Series r = genSeries(s, 2 + s.below(20));
  double a = genSmall(s), b = genSmall(s);
  for (size_t i = 0; i < r.t.size(); i++)
    r.y.v[i] = a + b * r.t.v[i];
  auto tv = make<double>(r.t);
  auto yv = make<double>(r.y);
  int where;
  size_t i;
  double t = genTime(s, r, where, i);
  double tc = std::max(r.t.v.front(), std::min(r.t.v.back(), t));
  c.log([&](auto &o) { o << "line " << a << " + " << b << " t at " << num(t); });
  c.nontrivial(where == W_BETWEEN);
  c.require(near(etr::li(t, tv, yv), a + b * tc, maxAbs(r.y)), "a straight line");
}
PBT_SUB("lines", 0.5, lines);
