#include "etr_pch.hpp"
#include "numtypes.hpp"
#include "series.hpp"
using namespace gen;

// the cubic of the interval k with the neighbours y0 and y3
static double reference(const Series &r, double tt) {
  typedef long double L;
  const auto &T = r.t.v, &Y = r.y.v;
  size_t n = T.size();
  if (tt < T[0])
    return Y[0];
  if (tt >= T[n - 1])
    return Y[n - 1];
  size_t k = 0;
  while (!(tt < T[k + 1]))
    k++;
  // beside of the first and last interval the series is continued with its other end
  L t1 = T[k], t2 = T[k + 1], y1 = Y[k], y2 = Y[k + 1];
  L t0 = k > 0 ? T[k - 1] : T[n - 1], y0 = k > 0 ? Y[k - 1] : Y[n - 1];
  L t3 = k + 2 < n ? T[k + 2] : T[0] + (L)T[n - 1], y3 = k + 2 < n ? Y[k + 2] : Y[0];
  L x = (tt - t1) / (t2 - t1), m1 = (y2 - y0) / (t2 - t0), m2 = (y3 - y1) / (t3 - t1);
  L h00 = (1 + 2 * x) * (1 - x) * (1 - x), h10 = x * (1 - x) * (1 - x), h01 = x * x * (3 - 2 * x), h11 = x * x * (x - 1);
  return (double)(h00 * y1 + h10 * (t2 - t1) * m1 + h01 * y2 + h11 * (t2 - t1) * m2);
}
static bool wellPosed(const Series &r) { // the continued series has no equal times
  size_t n = r.t.size();
  double d = r.t.v[0] + r.t.v[n - 1] - r.t.v[n - 2];
  return std::fabs(d) > 1e-3;
}
// bound of the values of the cubic
static double scale(const Series &r) {
  size_t n = r.t.size();
  double dt = 0, mn = 1e300;
  for (size_t i = 1; i < n; i++) {
    dt = std::max(dt, r.t.v[i] - r.t.v[i - 1]);
    mn = std::min(mn, r.t.v[i] - r.t.v[i - 1]);
  }
  double d = std::fabs(r.t.v[0] + r.t.v[n - 1] - r.t.v[n - 2]);
  mn = std::min(mn, d > 1e-3 ? d : mn);
  return maxAbs(r.y) * (4 + 4 * dt / mn);
}
template <class F> static void timeKinds(Src &s, double t, F &&f) {
  switch (s.below(7)) {
  case 0: {
    auto x = make<double>(ref::vec({t}));
    return f(x, "variable");
  }
  case 1: {
    const auto x = make<double>(ref::vec({t, t + 1.0}));
    return f(x, "constant variable, first element");
  }
  case 2: {
    std::vector<double> mem = {t};
    BorrowPtr x(mem.data(), 1);
    return f(x, "borrowed");
  }
  case 3: {
    auto v = make<double>(ref::vec({5.0, t, 1.0}));
    auto x = etr::subset(v, 2);
    return f(x, "subset");
  }
  case 4: {
    const auto x = etr::coca(t);
    return f(x, "result of a function");
  }
  case 5: {
    auto v = make<double>(ref::vec({t - 1.0}));
    double one = 1.0;
    const auto x = v + one;
    return f(x, "calculation");
  }
  default: {
    return f(t, "double");
  }
  }
}
template <int KIND> static void spline(Ctx &c) {
  Src &s = c.s;
  Series r = genSeries(s, 4 + (s.below(4) ? s.below(5) : genSize(s, 60)));
  std::vector<double> mt = r.t.v, my = r.y.v;
  size_t n = r.t.size();
  double sc = scale(r);
  auto run = [&](auto &tv, auto &yv) {
    int q = 1 + (int)s.below(6);
    for (int k = 0; k < q; k++) {
      int where;
      size_t i;
      double t = genTime(s, r, where, i);
      // KNOWN_FINDINGS: the last interval of a series which does not continue
      if (!wellPosed(r) && t >= r.t.v[n - 2] && t < r.t.v[n - 1]) {
        c.label("known finding: skipped");
        continue;
      }
      double want = reference(r, t);
      c.log([&](auto &o) { o << "cmr(" << num(t) << ", " << str(r.t, 8) << ", " << str(r.y, 8) << ") " << whereName(where) << "; "; });
      c.label(where == W_BETWEEN ? (i == 0 ? "first interval" : i + 2 == n ? "last interval" : "inner interval") : whereName(where));
      if (where == W_BETWEEN)
        c.nontrivial();
      timeKinds(s, t, [&](auto &x, const char *kind) {
        double got = etr::cmr(x, tv, yv);
        if (where == W_BETWEEN ? !near(got, want, sc) : !(near(got, want, maxAbs(r.y), 1e-12)))
          c.fail(std::string("cmr(") + num(t) + ") is " + num(got) + " instead of " + num(want) + " (" + whereName(where) + ", " + kind + ")");
      });
      if (t == std::trunc(t) && std::fabs(t) < 1e6) {
        int ti = (int)t;
        c.require(near(etr::cmr(ti, tv, yv), want, sc), "cmr with an int as time");
      }
      // the other types of numbers
      double tf = (float)t;
      int nt = std::fabs(t) < 1e4 ? ntKind(s, t) : 4;
      double at = nt == 4 ? tf : t;
      if (wellPosed(r) || at < r.t.v[n - 2] || at >= r.t.v[n - 1])
        ntCall(nt, at, [&](auto x) {
          double got = etr::cmr(x, tv, yv), w = reference(r, at);
          if (!near(got, w, sc))
            c.fail(std::string("cmr(") + ntName(nt) + " " + num(at) + ") is " + num(got) + " instead of " + num(w));
        });
    }
    expectMV(c, readBack(tv), r.t, "time points");
    expectMV(c, readBack(yv), r.y, "values");
  };
  if constexpr (KIND == 1) {
    BorrowPtr tv(mt.data(), mt.size()), yv(my.data(), my.size());
    run(tv, yv);
  } else if constexpr (KIND == 2) {
    const auto tv = make<double>(r.t);
    MV rest = ref::vec(std::vector<double>(r.y.v.begin() + 1, r.y.v.end()));
    auto rv = make<double>(rest);
    const auto yv = etr::coca(r.y.v[0], rv);
    run(tv, yv);
  } else {
    auto tv = make<double>(r.t);
    auto yv = make<double>(r.y);
    run(tv, yv);
  }
}
PBT_SUB("spline", 2, spline<0>);
PBT_SUB("spline_borrowed", 0.5, spline<1>);
PBT_SUB("spline_const", 0.5, spline<2>);

// the value at a missing time is missing, whatever was calculated before
static void missing(Ctx &c) {
  Src &s = c.s;
  Series r = genSeries(s, 4 + genSize(s, 20));
  auto tv = make<double>(r.t);
  auto yv = make<double>(r.y);
  c.log([&](auto &o) { o << "cmr(NaN, " << str(r.t, 8) << ", " << str(r.y, 8) << ")"; });
  c.nontrivial();
  for (int k = 0; k < 3; k++) {
    int where;
    size_t i;
    etr::cmr(genTime(s, r, where, i), tv, yv);
    timeKinds(s, std::nan(""), [&](auto &x, const char *kind) {
      double got = etr::cmr(x, tv, yv);
      if (!std::isnan(got))
        c.fail(std::string("cmr(NaN) is ") + num(got) + " (" + kind + ")");
    });
    double f = etr::cmr(std::nanf(""), tv, yv);
    c.require(std::isnan(f), "cmr(NaN) with a float");
  }
}
PBT_SUB("missing_time", 0.3, missing);

// laws which do not need the formula
static void laws(Ctx &c) {
  Src &s = c.s;
  size_t n = 4 + s.below(10);
  Series r = genSeries(s, n);
  size_t k = 1 + s.below(n - 3); // an inner interval
  double f = s.below(65) / 64.0;
  double t = r.t.v[k] + f * (r.t.v[k + 1] - r.t.v[k]);
  if (f >= 1.0)
    t = r.t.v[k + 1];
  if (f >= 1.0 && k + 3 == n && !wellPosed(r))
    return; // KNOWN_FINDINGS
  auto tv = make<double>(r.t);
  auto yv = make<double>(r.y);
  double sc = scale(r), got = etr::cmr(t, tv, yv);
  c.log([&](auto &o) { o << "laws at " << num(t) << " of " << str(r.t) << " " << str(r.y); });
  c.nontrivial(f > 0 && f < 1);
  // straight lines
  double a = genSmall(s), b = genSmall(s);
  auto line = make<double>(apply2(ADD, scal(a), apply2(MUL, scal(b), r.t)));
  if (k + 3 <= n - 1 || f < 1)
    c.require(near(etr::cmr(t, tv, line), a + b * t, (std::fabs(a) + std::fabs(b) * maxAbs(r.t)) * 4), "a straight line");
  // linear in the values
  MV y2 = genVec(s, n, Ty::D, SMALL);
  auto y2v = make<double>(y2);
  auto sum = make<double>(apply2(ADD, apply2(MUL, r.y, scal(2.0)), y2));
  double sc2 = sc * 3 + sc / (1 + maxAbs(r.y)) * (1 + maxAbs(y2));
  c.require(near(etr::cmr(t, tv, sum), 2 * got + etr::cmr(t, tv, y2v), sc2), "linear in the values");
  if (f < 1) {
    // shifted times
    double d = genSmall(s);
    auto tv2 = make<double>(apply2(ADD, r.t, scal(d)));
    double td = t + d;
    c.require(near(etr::cmr(td, tv2, yv), got, sc), "shifted times");
    // only the four neighbours count
    MV y3 = r.y;
    for (size_t i = 0; i < n; i++)
      if (i + 1 < k || i > k + 2)
        y3.v[i] = genSmall(s);
    auto y3v = make<double>(y3);
    c.require(near(etr::cmr(t, tv, y3v), got, sc + maxAbs(y3)), "other points have an influence");
  }
}
PBT_SUB("laws", 1, laws);

static void refused(Ctx &c) {
  Src &s = c.s;
  Series r = genSeries(s, 1 + genSize(s, 20));
  Series q = genSeries(s, 1 + genSize(s, 20));
  auto tv = make<double>(r.t);
  int where;
  size_t i;
  double t = genTime(s, r, where, i);
  c.log([&](auto &o) { o << "cmr(" << num(t) << ") with " << r.t.size() << " times and " << q.y.size() << " values"; });
  c.nontrivial();
  if (q.t.size() == r.t.size()) {
    if (q.t.size() >= 4)
      return;
    c.label("too few points");
  }
  auto yv = make<double>(q.y);
  auto tt = make<double>(ref::vec({t}));
  if (!throws([&]() { etr::cmr(t, tv, yv); }) || !throws([&]() { etr::cmr(tt, tv, yv); }))
    c.fail("times and values which do not fit are accepted");
}
PBT_SUB("refused", 0.3, refused);
