#include "common.hpp"

static void product(Ctx &c) {
  Src &s = c.s;
  size_t n = 1 + s.below(5), k = 1 + s.below(5), m = 1 + s.below(5);
  MV a = genMat(s, n, k, Ty::D, SMALL), b = genMat(s, k, m, Ty::D, SMALL);
  input(c, "matrix product", a);
  c.log([&](auto &o) { o << " and " << str(b); });
  dvec w(n * m, 0.0);
  for (size_t j = 0; j < m; j++)
    for (size_t i = 0; i < n; i++)
      for (size_t l = 0; l < k; l++)
        w[j * n + i] += a.v[l * n + i] * b.v[j * k + l];
  sexp A = in(a), B = in(b);
  int N = (int)n, K = (int)k, M = (int)m;
  sexp C = matrix(0.0, +N, +M);
  for (int i = 1; i <= N; i++)
    for (int j = 1; j <= M; j++)
      for (int l = 1; l <= K; l++)
        at(C, i, j) = at(C, i, j) + at(A, i, l) * at(B, l, j);
  expectVec(c, C, outM(w, n, m), "matrix product with at");
  sexp D = matrix(0.0, +N, +M), t;
  for (int i = 1; i <= N; i++)
    for (int j = 1; j <= M; j++)
      for (int l = 1; l <= K; l++)
        D(i, j) = D(i, j) + A(i, l) * B(l, j);
  expectVec(c, D, outM(w, n, m), "matrix product with subsets");
  sexp E = matrix(0.0, +N, +M);
  for (int i = 1; i <= N; i++)
    for (int j = 1; j <= M; j++) {
      sexp row, col;
      row = A(i, true);
      col = B(true, j);
      double sum = 0;
      for (int l = 1; l <= K; l++)
        sum += at(row, l) * at(col, l);
      E(i, j) = sum;
    }
  expectVec(c, E, outM(w, n, m), "matrix product with rows and columns");
  sexp F = matrix(0.0, +N, +M); // sum of columns
  for (int j = 1; j <= M; j++)
    for (int l = 1; l <= K; l++)
      F(true, j) = F(true, j) + A(true, l) * at(B, l, j);
  expectVec(c, F, outM(w, n, m), "matrix product with columns");
}
PBT_SUB("product", 1, product);

static void transpose(Ctx &c) {
  Src &s = c.s;
  size_t n = 1 + s.below(6), m = 1 + s.below(6);
  MV a = genMat(s, n, m, Ty::D, REAL);
  input(c, "transpose", a);
  dvec w(n * m);
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < m; j++)
      w[i * m + j] = a.v[j * n + i];
  sexp A = in(a);
  int N = (int)n, M = (int)m;
  sexp B = matrix(0.0, +M, +N);
  for (int i = 1; i <= N; i++)
    B(true, i) = A(i, true);
  expectVec(c, B, outM(w, m, n), "transposed matrix by rows");
  sexp C = matrix(0.0, +M, +N);
  for (int i = 1; i <= N; i++)
    for (int j = 1; j <= M; j++)
      at(C, j, i) = at(A, i, j);
  expectVec(c, C, outM(w, m, n), "transposed matrix by elements");
  sexp D;
  D = A;
  D = D(colon(N, 1), colon(M, 1));
  dvec r(a.v.rbegin(), a.v.rend());
  expectVec(c, D, outM(r, n, m), "rotated matrix");
}
PBT_SUB("transpose", 1, transpose);

// Gauss without pivot search on a diagonally dominant matrix
static void gauss(Ctx &c) {
  Src &s = c.s;
  size_t n = 2 + s.below(5);
  MV a = genMat(s, n, n, Ty::D, SMALL);
  for (size_t i = 0; i < n; i++)
    a.v[i * n + i] = 200.0 + i;
  MV b = genVec(s, n, Ty::D, SMALL);
  input(c, "gauss", a);
  c.log([&](auto &o) { o << " and " << str(b); });
  dvec w = a.v, y = b.v, x(n);
  for (size_t k = 0; k < n; k++)
    for (size_t i = k + 1; i < n; i++) {
      double f = w[k * n + i] / w[k * n + k];
      for (size_t j = 0; j < n; j++)
        w[j * n + i] -= f * w[j * n + k];
      y[i] -= f * y[k];
    }
  for (size_t i = n; i-- > 0;) {
    double t = y[i];
    for (size_t j = i + 1; j < n; j++)
      t -= w[j * n + i] * x[j];
    x[i] = t / w[i * n + i];
  }
  sexp A = in(a), r = in(b), f, X, t;
  int N = (int)n;
  for (auto k : colon(1, N))
    for (int i = k + 1; i <= N; i++) {
      f = A(i, k) / A(k, k);
      A(i, true) = A(i, true) - f * A(k, true);
      r(i) = r(i) - f * r(k);
    }
  X = rep(0.0, N);
  for (int i : colon(N, 1)) {
    t = r(i);
    for (int j = i + 1; j <= N; j++)
      t = t - A(i, j) * X(j);
    X(i) = t / A(i, i);
  }
  MV W = outM(w, n, n);
  // the values below the diagonal are only rounding errors
  MV G = readBack(A);
  for (size_t k = 0; k < n; k++)
    for (size_t i = k + 1; i < n; i++) {
      if (std::fabs(G.v[k * n + i]) > 1e-9)
        c.fail("gauss: the element below the diagonal is not removed");
      G.v[k * n + i] = W.v[k * n + i] = 0;
    }
  expectMV(c, G, W, "gauss: matrix", true, 1e-9);
  expectVec(c, X, out(x), "gauss: solution", true, 1e-9);
}
PBT_SUB("gauss", 1, gauss);

static void life(Ctx &c) {
  Src &s = c.s;
  int n = 3 + (int)s.below(4), m = 3 + (int)s.below(4);
  MV a = genMat(s, n, m, Ty::B, SMALL);
  input(c, "game of life", a);
  dvec w = a.v;
  auto L = make<bool>(a);
  sexp D = make<double>(a);
  int gens = 1 + (int)s.below(3);
  for (int g = 0; g < gens; g++) {
    dvec v(w.size());
    for (int i = 0; i < n; i++)
      for (int j = 0; j < m; j++) {
        int k = 0;
        for (int p = -1; p <= 1; p++)
          for (int q = -1; q <= 1; q++)
            if (p || q)
              k += (int)w[(j + q + m) % m * n + (i + p + n) % n];
        v[j * n + i] = k == 3 || (k == 2 && w[j * n + i] != 0);
      }
    w = v;
    // with shifted matrices
    sexp up = coca(colon(2, n), 1), down = coca(n, colon(1, n - 1)), left = coca(colon(2, m), 1), right = coca(m, colon(1, m - 1));
    sexp cnt;
    cnt = D(up, true) + D(down, true) + D(true, left) + D(true, right) + D(up, left) + D(up, right) + D(down, left) + D(down, right);
    sexp next;
    next = (cnt == 3.0) + (cnt == 2.0) * (D == 1.0);
    D = next;
    // with elements
    bvec N;
    N = L;
    for (int i = 1; i <= n; i++)
      for (int j = 1; j <= m; j++) {
        int k = 0;
        for (int p = -1; p <= 1; p++)
          for (int q = -1; q <= 1; q++)
            if (p || q)
              k += at(L, (i + p + n - 1) % n + 1, (j + q + m - 1) % m + 1);
        if (k == 3)
          N(i, j) = true;
        else if (k != 2)
          N(i, j) = false;
      }
    L = N;
  }
  expectVec(c, D, outM(w, n, m), "game of life with matrices");
  expectVec(c, L, outM(w, n, m), "game of life with elements");
}
PBT_SUB("life", 1, life);

// heat equation: overlapping parts of one variable
static void heat(Ctx &c) {
  Src &s = c.s;
  int n = 3 + (int)s.below(12), steps = 1 + (int)s.below(10);
  MV m = genVec(s, n, Ty::D, SMALL);
  input(c, "heat equation", m);
  double k = s.pick({0.25, 0.125, 0.1});
  dvec w = m.v;
  sexp u = in(m), a, b, mid;
  dvec mem = m.v;
  BorrowPtr p(mem.data(), mem.size());
  a = colon(1, n - 2);
  mid = colon(2, n - 1);
  b = colon(3, n);
  for (int t = 0; t < steps; t++) {
    dvec v = w;
    for (int i = 1; i < n - 1; i++)
      v[i] = w[i] + k * (w[i - 1] - 2.0 * w[i] + w[i + 1]);
    w = v;
    u(mid) = u(mid) + k * (u(a) - 2.0 * u(mid) + u(b));
    p(mid) = p(mid) + k * (p(colon(1, n - 2)) - 2.0 * p(mid) + p(b));
  }
  expectVec(c, u, out(w), "heat equation", true, 1e-10);
  expectVec(c, p, out(w), "heat equation, borrowed", true, 1e-10);
}
PBT_SUB("heat", 1, heat);

static void power(Ctx &c) {
  Src &s = c.s;
  size_t n = 2 + s.below(4);
  MV a = genMat(s, n, n, Ty::D, SMALL);
  for (auto &e : a.v)
    e = std::fabs(e) + 1.0;
  input(c, "power iteration", a);
  dvec w(n, 1.0);
  sexp A = in(a), x = rep(1.0, (int)n), y, norm;
  for (int t = 0; t < 5; t++) {
    dvec v(n, 0.0);
    double nn = 0;
    for (size_t j = 0; j < n; j++)
      for (size_t i = 0; i < n; i++)
        v[i] += a.v[j * n + i] * w[j];
    for (double e : v)
      nn += e * e;
    for (size_t i = 0; i < n; i++)
      w[i] = v[i] / std::sqrt(nn);
    y = rep(0.0, (int)n);
    for (int j = 1; j <= (int)n; j++)
      y = y + A(true, j) * x(j);
    norm = 0.0;
    for (auto e : y)
      norm = norm + e * e;
    x = y / etr::sqroot(norm);
  }
  // A(, j) * x(j) is a matrix with one column or a vector, the content counts
  expectVec(c, x, out(w), "power iteration", false, 1e-9);
}
PBT_SUB("power", 1, power);

static void border(Ctx &c) { // changes of rows, columns and parts
  Src &s = c.s;
  int n = 2 + (int)s.below(5), m = 2 + (int)s.below(5);
  MV a = genMat(s, n, m, Ty::D, SMALL);
  input(c, "rows and columns", a);
  dvec w = a.v;
  sexp A = in(a);
  int steps = 1 + (int)s.below(6);
  for (int t = 0; t < steps; t++) {
    int i = (int)s.below(n), j = (int)s.below(m), i2 = (int)s.below(n), j2 = (int)s.below(m);
    double k = genSmall(s);
    switch (s.below(5)) {
    case 0: // scale a row
      for (int q = 0; q < m; q++)
        w[q * n + i] *= k;
      A(i + 1, true) = A(i + 1, true) * k;
      break;
    case 1: { // exchange of columns
      for (int q = 0; q < n; q++)
        std::swap(w[j * n + q], w[j2 * n + q]);
      sexp h;
      h = A(true, j + 1);
      A(true, j + 1) = A(true, j2 + 1);
      A(true, j2 + 1) = h;
      break;
    }
    case 2: { // exchange of rows at once
      for (int q = 0; q < m; q++)
        std::swap(w[q * n + i], w[q * n + i2]);
      if (i != i2)
        A(coca(i + 1, i2 + 1), true) = A(coca(i2 + 1, i + 1), true);
      break;
    }
    case 3: // the border
      for (int q = 0; q < m; q++)
        w[q * n] = w[q * n + n - 1] = k;
      A(coca(1, n), true) = k;
      break;
    default: // a part
      for (int q = std::min(j, j2); q <= std::max(j, j2); q++)
        for (int p = std::min(i, i2); p <= std::max(i, i2); p++)
          w[q * n + p] += k;
      A(colon(i + 1, i2 + 1), colon(j + 1, j2 + 1)) = A(colon(i + 1, i2 + 1), colon(j + 1, j2 + 1)) + k;
    }
    expectVec(c, A, outM(w, n, m), "matrix after change " + std::to_string(t + 1));
  }
}
PBT_SUB("border", 1, border);
