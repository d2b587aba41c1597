#include "common.hpp"

// Lotka Volterra, the state lies in memory of the caller (as in an ODE solver)
static void rhs(double *y_, double *dy_, sexp &p) {
  BorrowPtr y(y_, size_t(2)), dy(dy_, size_t(2));
  sexp prey, pred;
  prey = y(1);
  pred = y(2);
  dy(1) = p(1) * prey - p(2) * prey * pred;
  dy(2) = p(3) * prey * pred - p(4) * pred;
}
static sexp deriv(sexp y, const sexp &p) {
  sexp r = vector_numeric(2), q;
  q = p;
  r(1) = q(1) * y(1) - q(2) * y(1) * y(2);
  r(2) = q(3) * y(1) * y(2) - q(4) * y(2);
  return r;
}
static void ode(Ctx &c) {
  Src &s = c.s;
  MV p;
  for (int i = 0; i < 4; i++)
    p.v.push_back(0.01 * (1 + (double)s.below(20)));
  MV y0 = vec({1.0 + (double)s.below(10), 1.0 + (double)s.below(10)});
  input(c, "ODE", p);
  c.log([&](auto &o) { o << " and " << str(y0); });
  double h = 0.05;
  int steps = 1 + (int)s.below(20);
  auto f = [&](const dvec &y) { return dvec{p.v[0] * y[0] - p.v[1] * y[0] * y[1], p.v[2] * y[0] * y[1] - p.v[3] * y[1]}; };
  dvec e = y0.v, r = y0.v;
  std::vector<dvec> path;
  for (int t = 0; t < steps; t++) {
    dvec d = f(e);
    for (int i = 0; i < 2; i++)
      e[i] += h * d[i];
    path.push_back(e);
    auto axpy = [](const dvec &a, double k, const dvec &b) { return dvec{a[0] + k * b[0], a[1] + k * b[1]}; };
    dvec k1 = f(r), k2 = f(axpy(r, h / 2, k1)), k3 = f(axpy(r, h / 2, k2)), k4 = f(axpy(r, h, k3));
    for (int i = 0; i < 2; i++)
      r[i] += h / 6.0 * (k1[i] + 2.0 * k2[i] + 2.0 * k3[i] + k4[i]);
  }
  // Euler
  sexp P = in(p), Y = in(y0);
  dvec y = y0.v, dy(2, -1.0);
  sexp res = matrix(0.0, +steps, 2);
  for (int t = 1; t <= steps; t++) {
    rhs(y.data(), dy.data(), P);
    BorrowPtr b(y.data(), size_t(2)), db(dy.data(), size_t(2));
    b = b + h * db;
    res(t, true) = b;
  }
  MV W;
  W.im = true;
  W.nr = steps;
  W.nc = 2;
  for (int k = 0; k < 2; k++)
    for (auto &q : path)
      W.v.push_back(q[k]);
  expectVec(c, res, W, "euler method", true, 1e-9);
  // Runge Kutta
  sexp k1, k2, k3, k4;
  for (int t = 0; t < steps; t++) {
    k1 = deriv(Y, P);
    sexp tmp;
    tmp = Y + h / 2 * k1;
    k2 = deriv(tmp, P);
    tmp = Y + h / 2 * k2;
    k3 = deriv(tmp, P);
    tmp = Y + h * k3;
    k4 = deriv(tmp, P);
    Y = Y + h / 6.0 * (k1 + 2.0 * k2 + 2.0 * k3 + k4);
  }
  expectVec(c, Y, out(r), "runge kutta method", true, 1e-9);
  expectVec(c, P, p, "parameters");
}
PBT_SUB("ode", 1, ode);

static void roots(Ctx &c) {
  Src &s = c.s;
  double a = 0.5 + (double)s.below(2000) / 16.0;
  input(c, "roots", vec({a, 0}));
  sexp x = a, A = a, d;
  int n = 0;
  do { // Newton
    d = (x * x - A) / (2.0 * x);
    x = x - d;
    n++;
  } while ((d > 1e-12 || d < -1e-12) && n < 60);
  expectVec(c, x, scal(std::sqrt(a)), "newton method", true, 1e-9);
  // bisection of x^3 - a
  sexp lo = 0.0, hi = 6.0, mid, f;
  double l = 0, h = 6;
  for (int i = 0; i < 40; i++) {
    mid = (lo + hi) / 2.0;
    f = mid * mid * mid - A;
    if (f > 0.0)
      hi = mid;
    else
      lo = mid;
    double m = (l + h) / 2;
    (m * m * m - a > 0 ? h : l) = m;
  }
  expectVec(c, lo, scal(l), "bisection");
}
PBT_SUB("roots", 1, roots);

static void polynomial(Ctx &c) {
  Src &s = c.s;
  MV co = genVec(s, 1 + s.below(6), Ty::D, SMALL), x = genVec(s, 1 + s.below(10), Ty::D, SMALL);
  for (auto &e : x.v)
    e /= 8.0;
  input(c, "polynomial", co);
  c.log([&](auto &o) { o << " at " << str(x); });
  c.nontrivial(x.size() > 1);
  dvec w(x.size(), 0.0), t(x.size(), 0.0);
  for (size_t i = 0; i < x.size(); i++)
    for (double k : co.v)
      w[i] = w[i] * x.v[i] + k;
  sexp X = in(x), C = in(co), r, e, pw;
  r = rep(0.0, (int)x.size());
  for (auto k : C)
    r = r * X + k;
  expectVec(c, r, out(w), "horner");
  // exponential series
  for (size_t i = 0; i < x.size(); i++) {
    double q = 1, sum = 1;
    for (int k = 1; k < 12; k++) {
      q = q * x.v[i] / k;
      sum += q;
    }
    t[i] = sum;
  }
  e = rep(1.0, (int)x.size());
  pw = e;
  for (int k = 1; k < 12; k++) {
    pw = pw * X / k;
    e = e + pw;
  }
  expectVec(c, e, out(t), "exponential series", true, 1e-10);
}
PBT_SUB("polynomial", 1, polynomial);

// Mandelbrot: logical masks
static void mandelbrot(Ctx &c) {
  Src &s = c.s;
  size_t n = 1 + s.below(12);
  MV re, im;
  for (size_t i = 0; i < n; i++) {
    re.v.push_back((double)s.below(48) / 16.0 - 2.0);
    im.v.push_back((double)s.below(32) / 16.0 - 1.0);
  }
  input(c, "mandelbrot", re);
  dvec w(n, 0.0);
  int lim = 8;
  for (size_t i = 0; i < n; i++) {
    double a = 0, b = 0;
    for (int k = 0; k < lim && a * a + b * b <= 4; k++) {
      double t = a * a - b * b + re.v[i];
      b = 2.0 * a * b + im.v[i];
      a = t;
      w[i]++;
    }
  }
  sexp R = in(re), I = in(im), a, b, t, cnt, pos;
  a = rep(0.0, (int)n);
  b = a;
  cnt = a;
  bvec live;
  pos = colon(1, (int)n);
  for (int k = 0; k < lim; k++) {
    live = a * a + b * b <= 4.0;
    int left = 0;
    for (auto l : live)
      left += l;
    if (left == 0)
      break;
    t = a(live) * a(live) - b(live) * b(live) + R(live);
    b(live) = 2.0 * a(live) * b(live) + I(live);
    a(live) = t;
    cnt(live) = cnt(live) + 1;
  }
  expectVec(c, cnt, out(w), "mandelbrot");
}
PBT_SUB("mandelbrot", 1, mandelbrot);

// reading external data with li and using it
static void forcing(Ctx &c) {
  Src &s = c.s;
  int n = 2 + (int)s.below(6);
  MV tv, v;
  double t0 = 0;
  for (int i = 0; i < n; i++) {
    tv.v.push_back(t0);
    t0 += 1.0 + (double)s.below(3);
    v.v.push_back(genSmall(s));
  }
  input(c, "external data", v);
  sexp T = in(tv), V = in(v), y = 0.0;
  double w = 0, h = 0.25, end = tv.v.back();
  for (double t = 0; t < end; t += h) {
    size_t k = 0;
    while (k + 2 < tv.v.size() && tv.v[k + 1] <= t)
      k++;
    double f = v.v[k] + (v.v[k + 1] - v.v[k]) * (t - tv.v[k]) / (tv.v[k + 1] - tv.v[k]);
    w += h * f;
    y = y + h * etr::li(t, T, V);
  }
  if (std::fabs(at(y, 1) - w) > 1e-9 * (1 + std::fabs(w)) * 100)
    c.fail("integral of the interpolated data is " + num(at(y, 1)) + " instead of " + num(w));
}
PBT_SUB("forcing", 1, forcing);

// recursion, arguments by value and by reference
static sexp factorial(sexp n) {
  if (n <= 1.0)
    return coca(1.0);
  sexp m = coca(at(n, 1) - 1.0), r;
  r = n * factorial(m);
  return r;
}
static int hanoi(int n, sexp &from, sexp &to, sexp &via) {
  if (n == 0)
    return 0;
  int k = hanoi(n - 1, from, via, to);
  int last = (int)from.size();
  sexp disk;
  disk = from(last);
  to = coca(to, disk);
  from = from(colon(1, last - 1));
  return k + 1 + hanoi(n - 1, via, to, from);
}
static void recursion(Ctx &c) {
  int n = 1 + (int)c.s.below(12), k = 1 + (int)c.s.below(5);
  input(c, "recursion", vec({(double)n, (double)k}));
  double w = 1;
  for (int i = 2; i <= n; i++)
    w *= i;
  sexp q = (double)n;
  expectVec(c, factorial(q), scal(w), "factorial");
  expectVec(c, q, scal(n), "argument of factorial");
  sexp a = coca(99, colon(k, 1)), b = 99.0, d = 99.0;
  dvec disks = {99};
  for (int i = k; i >= 1; i--)
    disks.push_back(i);
  int moves = hanoi(k, a, b, d);
  if (moves != (1 << k) - 1)
    c.fail("hanoi: wrong number of moves");
  expectVec(c, b, out(disks), "hanoi: target");
  expectVec(c, a, scal(99), "hanoi: source");
  expectVec(c, d, scal(99), "hanoi: third");
}
PBT_SUB("recursion", 1, recursion);
