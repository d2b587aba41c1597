#include "common.hpp"

// ------------------------------------------------------------------- sorting
static void bubble(sexp &arr) { // examples/bubblesort.cpp
  sexp temp;
  bool swapped = true;
  int size = (int)length(arr);
  do {
    swapped = false;
    for (int i = 1; i < size; i++) {
      if (arr(i) > arr(i + 1)) {
        temp = arr(i);
        arr(i) = arr(i + 1);
        arr(i + 1) = temp;
        swapped = true;
      }
    }
  } while (swapped);
}
static void bubbleAt(BorrowPtr &arr) {
  bool swapped = true;
  do {
    swapped = false;
    for (auto i : colon(1, (int)arr.size() - 1)) {
      if (at(arr, i) > at(arr, i + 1)) {
        double t = at(arr, i);
        at(arr, i) = at(arr, i + 1);
        at(arr, i + 1) = t;
        swapped = true;
      }
    }
  } while (swapped);
}
static sexp insertion(sexp x) { // by value
  for (int i = 2; i <= (int)x.size(); i++) {
    sexp key = coca(at(x, i));
    int j = i - 1;
    while (j >= 1 && at(x, j) > at(key, 1)) {
      x(j + 1) = x(j);
      j = j - 1;
    }
    x(j + 1) = key;
  }
  return x;
}
static void sorting(Ctx &c) {
  Src &s = c.s;
  MV m = genVec(s, 2 + s.below(14), Ty::D, s.pick({SMALL, REAL}));
  input(c, "sorting", m);
  dvec w = m.v;
  std::sort(w.begin(), w.end());
  sexp a = in(m);
  bubble(a);
  expectVec(c, a, out(w), "bubble sort of " + str(m));
  sexp b = in(m);
  const sexp r = insertion(b);
  expectVec(c, r, out(w), "insertion sort of " + str(m));
  expectVec(c, b, m, "argument of the insertion sort");
  dvec mem = m.v;
  BorrowPtr p(mem.data(), mem.size());
  bubbleAt(p);
  expectVec(c, p, out(w), "bubble sort of borrowed " + str(m));
  if (mem != w)
    c.fail("bubble sort of borrowed memory: the memory differs");
}
PBT_SUB("sorting", 1, sorting);

// quick sort with logical subsets
static sexp quick(sexp x) {
  if (x.size() < 2)
    return x;
  sexp p;
  p = x(1);
  int less = 0, equal = 0;
  for (auto e : x) {
    if (e < at(p, 1))
      less++;
    else if (!(e > at(p, 1)))
      equal++;
  }
  sexp l, g, r;
  if (less > 0) {
    l = x(x < p);
    l = quick(l);
  }
  if ((int)x.size() - less - equal > 0) {
    g = x(x > p);
    g = quick(g);
  }
  r = rep(p, equal);
  if (less > 0)
    r = coca(l, r);
  if ((int)x.size() - less - equal > 0)
    r = coca(r, g);
  return r;
}
static void quickSort(Ctx &c) {
  Src &s = c.s;
  MV m = genVec(s, 1 + s.below(20), Ty::D, SMALL);
  input(c, "quick sort", m);
  dvec w = m.v;
  std::sort(w.begin(), w.end());
  sexp r = quick(in(m));
  expectVec(c, r, out(w), "quick sort of " + str(m));
}
PBT_SUB("quicksort", 1, quickSort);

// ------------------------------------------------------------- integer series
static void fibonacci(Ctx &c) {
  Src &s = c.s;
  int n = 3 + (int)s.below(40), a = (int)s.below(7) - 3, b = (int)s.below(7) - 3;
  input(c, "fibonacci", vec({(double)n, (double)a, (double)b}));
  dvec w = {(double)a, (double)b};
  for (int i = 2; i < n; i++)
    w.push_back(w[i - 1] + w[i - 2]);
  sexp r = vector_numeric(n);
  r(1) = a;
  r(2) = b;
  for (auto i : colon(3, n))
    r(i) = r(i - 1) + r(i - 2);
  expectVec(c, r, out(w), "fibonacci with subsets");
  ivec q = vector_integer(n);
  at(q, 1) = a;
  at(q, 2) = b;
  for (int i = 3; i <= n; i++)
    at(q, i) = at(q, i - 1) + at(q, i - 2);
  expectVec(c, q, out(w), "fibonacci with integers");
  sexp g; // growing
  g = coca(a, b);
  sexp nx;
  for (int i = 3; i <= n; i++) {
    nx = g(i - 1) + g(i - 2);
    g = coca(g, nx);
  }
  expectVec(c, g, out(w), "fibonacci with coca");
}
PBT_SUB("fibonacci", 1, fibonacci);

static void sieve(Ctx &c) {
  Src &s = c.s;
  int n = 2 + (int)s.below(120);
  input(c, "sieve", vec({(double)n, 0}));
  dvec w;
  for (int i = 2; i <= n; i++) {
    bool p = true;
    for (int j = 2; j * j <= i; j++)
      p = p && i % j;
    if (p)
      w.push_back(i);
  }
  bvec prime = rep(true, n);
  prime(1) = false;
  for (int i = 2; i * i <= n; i++)
    if (at(prime, i))
      for (int j = i * i; j <= n; j += i)
        at(prime, j) = false;
  ivec num = colon(1, n);
  ivec a;
  a = num(prime);
  expectVec(c, a, out(w), "primes up to " + std::to_string(n));
  sexp b, t;
  for (int i = 1; i <= n; i++)
    if (at(prime, i)) {
      if (i == 2)
        b = i;
      else
        b = coca(b, i);
    }
  expectVec(c, b, out(w), "collected primes up to " + std::to_string(n));
  // by removing multiples
  t = colon(2, n);
  bvec keep;
  int i = 1;
  while (i <= (int)t.size()) {
    double p = at(t, i);
    keep = t == p;
    for (int j = 1; j <= (int)t.size(); j++)
      at(keep, j) = at(keep, j) || std::fmod(at(t, j), p) != 0.0;
    t = t(keep);
    i = i + 1;
  }
  expectVec(c, t, out(w), "primes by removing multiples");
}
PBT_SUB("sieve", 1, sieve);

static void euclid(Ctx &c) {
  Src &s = c.s;
  int x = 1 + (int)s.below(300), y = 1 + (int)s.below(300);
  input(c, "euclid", vec({(double)x, (double)y}));
  sexp a = (double)x, b = (double)y;
  while (a != b) {
    if (a > b)
      a = a - b;
    else
      b = b - a;
  }
  expectVec(c, a, scal(std::gcd(x, y)), "greatest common divisor");
  ivec ia = coca(x), ib = coca(y), t;
  while (at(ib, 1) != 0) {
    t = ib;
    while (at(ia, 1) >= at(ib, 1))
      ia = ia - ib;
    ib = ia;
    ia = t;
  }
  expectVec(c, ia, scal(std::gcd(x, y)), "greatest common divisor of integers");
}
PBT_SUB("euclid", 1, euclid);

// -------------------------------------------------------------------- series
static void cumulative(Ctx &c) {
  Src &s = c.s;
  MV m = genVec(s, 2 + s.below(40), Ty::D, s.pick({SMALL, REAL}));
  input(c, "cumulative sums", m);
  size_t n = m.size(), wdt = 1 + s.below(std::min<size_t>(n, 5));
  dvec cs = m.v, rm = m.v, ma, rv(m.v.rbegin(), m.v.rend());
  for (size_t i = 1; i < n; i++) {
    cs[i] = cs[i - 1] + m.v[i];
    rm[i] = std::max(rm[i - 1], m.v[i]);
  }
  for (size_t i = 0; i + wdt <= n; i++) {
    double t = 0;
    for (size_t j = 0; j < wdt; j++)
      t += m.v[i + j];
    ma.push_back(t / wdt);
  }
  sexp x = in(m), y, z, r, sum;
  y = x;
  for (size_t i = 2; i <= n; i++)
    y((int)i) = y((int)i - 1) + y((int)i);
  expectVec(c, y, out(cs), "cumulative sum");
  z = x;
  for (auto i : colon(2, (int)n))
    if (z(i - 1) > z(i))
      z(i) = z(i - 1);
  expectVec(c, z, out(rm), "running maximum");
  r = vector_numeric((int)(n - wdt + 1));
  for (int i = 1; i <= (int)(n - wdt + 1); i++) {
    sum = 0.0;
    for (auto e : x(colon(i, i + (int)wdt - 1)))
      sum = sum + e;
    r(i) = sum / (double)wdt;
  }
  expectVec(c, r, out(ma), "moving average");
  r = x(colon((int)n, 1));
  expectVec(c, r, out(rv), "reversed");
  x = x(colon((int)n, 1));
  expectVec(c, x, out(rv), "reversed in place");
}
PBT_SUB("cumulative", 1, cumulative);

static void statistics(Ctx &c) {
  Src &s = c.s;
  MV m = genVec(s, 2 + s.below(40), Ty::D, s.pick({SMALL, REAL}));
  input(c, "statistics", m);
  double n = (double)m.size(), mean = 0, var = 0;
  for (double e : m.v)
    mean += e;
  mean /= n;
  dvec w, clipped = m.v;
  for (double e : m.v) {
    w.push_back(e - mean);
    var += (e - mean) * (e - mean);
  }
  var /= n - 1;
  for (auto &e : clipped)
    e = e < 0 ? 0 : e > 5 ? 5 : e;
  sexp x = in(m), mu, v, d;
  mu = 0.0;
  for (const auto &e : x)
    mu = mu + e;
  mu = mu / n;
  d = x - mu;
  expectVec(c, mu, scal(mean), "mean");
  expectVec(c, d, out(w), "centered");
  v = 0.0;
  for (int i = 1; i <= (int)n; i++)
    v = v + d(i) * d(i);
  v = v / (n - 1);
  expectVec(c, v, scal(var), "variance");
  expectVec(c, etr::sqroot(v), scal(std::sqrt(var)), "standard deviation");
  int neg = 0, big = 0;
  for (double e : m.v) {
    neg += e < 0;
    big += e > 5;
  }
  if (neg)
    x(x < 0.0) = 0.0;
  if (big)
    x(x > 5.0) = 5;
  expectVec(c, x, out(clipped), "clipped");
}
PBT_SUB("statistics", 1, statistics);

static void histogram(Ctx &c) {
  Src &s = c.s;
  int bins = 2 + (int)s.below(6);
  MV m;
  m.ty = Ty::I;
  size_t n = 1 + s.below(40);
  for (size_t i = 0; i < n; i++)
    m.v.push_back(1.0 + s.below(bins));
  input(c, "histogram", m);
  dvec w(bins, 0.0);
  for (double e : m.v)
    w[(int)e - 1]++;
  auto x = make<int>(m);
  ivec h = vector_integer(bins);
  h = rep(0, bins);
  sexp g = rep(0.0, bins);
  for (auto e : x) {
    h(e) = h(e) + 1;
    at(g, e) += 1.0;
  }
  expectVec(c, h, out(w), "histogram");
  expectVec(c, g, out(w), "histogram with at");
}
PBT_SUB("histogram", 1, histogram);

static void pascal(Ctx &c) {
  int n = 1 + (int)c.s.below(20);
  input(c, "pascal", vec({(double)n, 1}));
  dvec w = {1};
  sexp row = 1.0;
  ivec irow = coca(1);
  for (int i = 0; i < n; i++) {
    dvec v(w.size() + 1, 1.0);
    for (size_t j = 1; j < w.size(); j++)
      v[j] = w[j - 1] + w[j];
    w = v;
    row = coca(0, row) + coca(row, 0);
    irow = coca(0, irow) + coca(irow, 0);
  }
  expectVec(c, row, out(w), "row of the pascal triangle");
  expectVec(c, irow, out(w), "row of the pascal triangle (integer)");
}
PBT_SUB("pascal", 1, pascal);

static void search(Ctx &c) {
  Src &s = c.s;
  MV m = genVec(s, 1 + s.below(40), Ty::I, SMALL);
  std::sort(m.v.begin(), m.v.end());
  double q = genOf(s, Ty::I, SMALL);
  input(c, "search", m);
  int want = (int)(std::lower_bound(m.v.begin(), m.v.end(), q) - m.v.begin()) + 1;
  auto x = make<int>(m);
  sexp lo = 1.0, hi = (double)m.size() + 1;
  while (lo < hi) {
    sexp mid = coca(std::floor((at(lo, 1) + at(hi, 1)) / 2));
    if (x(mid) < q)
      lo = mid + 1;
    else
      hi = mid;
  }
  expectVec(c, lo, scal(want), "position of " + num(q) + " in " + str(m));
}
PBT_SUB("search", 1, search);

// a stack and a queue
static void containers(Ctx &c) {
  Src &s = c.s;
  dvec w = {0};
  sexp st = 0.0;
  int n = 2 + (int)s.below(30);
  c.log([&](auto &o) { o << "stack and queue:"; });
  c.label("stack and queue");
  c.nontrivial();
  for (int i = 0; i < n; i++) {
    int k = (int)s.below(6);
    double v = genSmall(s);
    c.log([&](auto &o) { o << " " << k << ":" << v; });
    if (k <= 1) {
      w.push_back(v);
      st = coca(st, v);
    } else if (k == 2) {
      w.insert(w.begin(), v);
      st = coca(v, st);
    } else if (k == 3 && w.size() > 1) {
      w.pop_back();
      st = st(colon(1, (int)st.size() - 1));
    } else if (k == 4 && w.size() > 1) {
      w.erase(w.begin());
      st = st(colon(2, (int)st.size()));
    } else if (k == 5) {
      size_t p = s.below(w.size());
      w[p] = v;
      st((int)p + 1) = v;
    }
    expectVec(c, st, out(w), "stack after operation " + std::to_string(i + 1));
  }
}
PBT_SUB("containers", 1, containers);
