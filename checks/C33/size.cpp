// operations on large objects: the time is proportional to the elements
#include "etr_pch.hpp"
#include "effort.hpp"
using namespace gen;
using pbt::Ctx;
using pbt::Src;
using effort::Watch;
namespace {
enum Op {
  COPY, CALC, COMPARE, FUNCTION, READ_INDEX, READ_INTEGER, READ_MASK, READ_ALL, READ_PART, WRITE_INDEX, WRITE_MASK, WRITE_ALL,
  WRITE_NUMBER, ROWS, COLUMNS, MATRIX_WRITE, MATRIX_ALL, MATRIX_CALC, ELEMENTS, LOOP, PUSH, COCA, REP_NUMBER, REP_VECTOR,
  RANGE, ISNA, LI, CMR, BORROW, SHRINK, DERIV, SELF, STORE, OPS
};
const char *names[] = {
  "copy", "calculation", "comparison", "function", "read with indices", "read with integers", "read with a mask", "read all",
  "read from a part", "write with indices", "write with a mask", "write all", "write a number", "rows of a matrix", "columns of a matrix",
  "write to a matrix", "all of a matrix", "calculation of matrices", "each element", "loop", "append", "concatenate", "repeat a number",
  "repeat a vector", "range", "isNA", "li", "cmr", "borrowed memory", "assign shorter and longer", "derivatives", "on itself", "copied storage"};
// one operation with n elements, returns the CPU time which was used
double operate(Ctx &c, Op op, size_t n, Src &s) {
  std::vector<double> va(n), vb(n), vr(n), vm(n);
  uint64_t z = s.below(1000);
  for (size_t i = 0; i < n; i++) {
    va[i] = (double)((i * 7 + z) % 1000) / 8.0;
    vb[i] = (double)((i * 13 + z) % 997) / 4.0;
    vr[i] = (double)(n - i);
    vm[i] = (i * 3 + z) % 7 < 4;
  }
  auto a = make<double>(ref::vec(va)), b = make<double>(ref::vec(vb)), rev = make<double>(ref::vec(vr));
  auto irev = make<int>(ref::vec(vr, Ty::I));
  auto mask = make<bool>(ref::vec(vm, Ty::B));
  const size_t R = n / 10, C = 10;
  sexp x = etr::coca(1.0, 2.0), one = etr::coca(1.0);
  std::string what = std::string(names[op]) + " with " + std::to_string(n) + " elements";
  std::vector<double> want;
  double used = 0;
  auto run = [&](auto &&f) {
    Watch w;
    f();
    used = w.used();
  };
  auto compare = [&]() {
    if (x.size() != want.size())
      c.fail(what + ": " + std::to_string(x.size()) + " elements instead of " + std::to_string(want.size()));
    const auto *p = x.d.p;
    for (size_t i = 0; i < want.size(); i++)
      if (!effort::same(p[i], want[i]))
        c.fail(what + ": element " + std::to_string(i) + " is " + std::to_string(p[i]) + " instead of " + std::to_string(want[i]));
  };
  auto matrix = [&](const std::vector<double> &v) {
    MV m;
    m.im = true;
    m.nr = R;
    m.nc = C;
    m.v.assign(v.begin(), v.begin() + (long)(R * C));
    return make<double>(m);
  };
  switch (op) {
  case COPY:
    want = va;
    run([&] { x = a; });
    break;
  case CALC:
    for (size_t i = 0; i < n; i++)
      want.push_back((va[i] + vb[i]) * 2.0 - va[i]);
    run([&] { x = (a + b) * 2.0 - a; });
    break;
  case COMPARE:
    for (size_t i = 0; i < n; i++)
      want.push_back(va[i] < vb[i]);
    run([&] { x = a < b; });
    break;
  case FUNCTION:
    for (size_t i = 0; i < n; i++)
      want.push_back(std::sqrt(va[i]));
    run([&] { x = etr::sqroot(a); });
    break;
  case READ_INDEX:
    want.assign(va.rbegin(), va.rend());
    run([&] { x = etr::subset(a, rev); });
    break;
  case READ_INTEGER:
    want.assign(va.rbegin(), va.rend());
    run([&] { x = etr::subset(a, irev); });
    break;
  case READ_MASK:
    for (size_t i = 0; i < n; i++)
      if (vm[i])
        want.push_back(va[i]);
    run([&] { x = etr::subset(a, mask); });
    break;
  case READ_ALL:
    want = va;
    run([&] { x = etr::subset(a, true); });
    break;
  case READ_PART:
    want = va;
    run([&] { x = etr::subset(etr::subset(a, rev), rev); });
    break;
  case WRITE_INDEX:
    x = a;
    want.assign(vb.rbegin(), vb.rend());
    run([&] { etr::subset(x, rev) = b; });
    break;
  case WRITE_MASK:
    x = a;
    want = va;
    for (size_t i = 0; i < n; i++)
      if (vm[i])
        want[i] = 1.5;
    run([&] { etr::subset(x, mask) = 1.5; });
    break;
  case WRITE_ALL:
    x = a;
    want = vb;
    run([&] { etr::subset(x, true) = b; });
    break;
  case WRITE_NUMBER:
    x = a;
    want.assign(n, 2.5);
    run([&] { etr::subset(x, rev) = 2.5; });
    break;
  case ROWS: {
    auto m = matrix(va);
    std::vector<double> rr;
    for (size_t i = 0; i < R; i++)
      rr.push_back((double)(R - i));
    auto rows = make<double>(ref::vec(rr));
    for (size_t j = 0; j < C; j++)
      for (size_t i = 0; i < R; i++)
        want.push_back(va[j * R + R - 1 - i]);
    run([&] { x = etr::subset(m, rows, true); });
    break;
  }
  case COLUMNS: {
    auto m = matrix(va);
    for (size_t i = 0; i < 2 * R; i++)
      want.push_back(va[(i < R ? 3 * R : 0) + i % R]);
    sexp cols = etr::coca(4.0, 1.0);
    run([&] { x = etr::subset(m, true, cols); });
    break;
  }
  case MATRIX_WRITE: {
    x = matrix(va);
    want.assign(va.begin(), va.begin() + (long)(R * C));
    std::vector<double> rr;
    for (size_t i = 0; i < R; i++) {
      rr.push_back((double)(i + 1));
      want[2 * R + i] = want[5 * R + i] = 3.5;
    }
    auto rows = make<double>(ref::vec(rr));
    sexp cols = etr::coca(3.0, 6.0);
    run([&] { etr::subset(x, rows, cols) = 3.5; });
    break;
  }
  case MATRIX_ALL: {
    x = matrix(va);
    want.assign(vb.begin(), vb.begin() + (long)(R * C));
    auto m = matrix(vb);
    run([&] { etr::subset(x, true, true) = m; });
    break;
  }
  case MATRIX_CALC: {
    auto m = matrix(va), k = matrix(vb);
    for (size_t i = 0; i < R * C; i++)
      want.push_back(va[i] * vb[i] + va[i]);
    run([&] { x = m * k + m; });
    break;
  }
  case ELEMENTS:
    x = a;
    want = va;
    for (auto &e : want)
      e += 1;
    run([&] {
      for (size_t i = 1; i <= n; i++)
        etr::at(x, (int)i) = etr::at(x, (int)i) + 1.0;
    });
    break;
  case LOOP: {
    double sum = 0, expected = 0;
    for (double e : va)
      expected += e;
    run([&] {
      for (auto e : a)
        sum += e;
    });
    c.require(sum == expected, what + ": another sum");
    x = a;
    want = va;
    break;
  }
  case PUSH: {
    etr::BaseStore<double> st;
    run([&] {
      for (size_t i = 0; i < n; i++)
        st.push_back(va[i]);
    });
    c.require(st.size() == n, what + ": another size");
    for (size_t i = 0; i < n; i++)
      c.require(st[i] == va[i], what + ": another element");
    x = a;
    want = va;
    break;
  }
  case COCA:
    want = va;
    want.insert(want.end(), vb.begin(), vb.end());
    want.push_back(1.5);
    run([&] { x = etr::coca(a, b, 1.5); });
    break;
  case REP_NUMBER:
    want.assign(n, 1.5);
    run([&] { x = etr::rep(1.5, (double)n); });
    break;
  case REP_VECTOR:
    for (size_t k = 0; k < 3; k++)
      want.insert(want.end(), va.begin(), va.end());
    run([&] { x = etr::rep(a, 3); });
    break;
  case RANGE:
    for (size_t i = 0; i < n; i++)
      want.push_back((double)n - (double)i);
    run([&] { x = etr::colon((double)n, 1.0); });
    break;
  case ISNA:
    want.assign(n, 0.0);
    run([&] { x = etr::isNA(a); });
    break;
  case LI:
  case CMR: {
    auto times = make<double>(ref::vec(std::vector<double>(vr.rbegin(), vr.rend())));
    double t = (double)(n / 2), got = 0;
    run([&] {
      for (int k = 0; k < 3; k++) {
        double at = t;
        got = op == LI ? etr::li(at, times, a) : etr::cmr(at, times, a);
      }
    });
    c.require(got == va[n / 2 - 1], what + ": another value");
    x = a;
    want = va;
    break;
  }
  case BORROW: {
    std::vector<double> mem(va);
    BorrowPtr p(mem.data(), n);
    for (size_t i = 0; i < n; i++)
      want.push_back(va[i] - vb[i]);
    run([&] {
      p = a - b;
      x = p;
    });
    c.require(mem == want, what + ": another memory");
    break;
  }
  case SHRINK:
    want = va;
    run([&] {
      for (int k = 0; k < 4; k++) {
        x = a;
        x = one;
      }
      x = a;
    });
    break;
  case DERIV: {
    using AV = etr::AllVars<2, 0, 0, 2>;
    AV av(0, 0);
    auto r = make<double>(ref::vec({0.0}));
    av.initBuffer(a, r);
    etr::Vec<double, etr::VarPointer<AV, 0, 0>, etr::VariableTypeTrait> d(av);
    etr::Vec<double, etr::VarPointer<AV, 1, 0>, etr::VariableTypeTrait> q(av);
    for (size_t i = 0; i < n; i++)
      want.push_back(2 * va[i] + 1);
    run([&] {
      q = d * d + d;
      auto g = etr::get_derivs(q);
      x = g;
    });
    break;
  }
  case SELF:
    x = a;
    want.assign(va.rbegin(), va.rend());
    for (auto &e : want)
      e *= 2;
    run([&] { x = etr::subset(x, rev) * 2.0; });
    break;
  case STORE: {
    etr::BaseStore<double> st(std::size_t(1)), empty;
    run([&] {
      st = a.d;
      empty = st;
    });
    c.require(st.size() == n && empty.size() == n, what + ": another size");
    for (size_t i = 0; i < n; i++)
      c.require(st[i] == va[i] && empty[i] == va[i], what + ": another element");
    x = a;
    want = va;
    break;
  }
  default:;
  }
  compare();
  return used;
}
// the elements are doubled until the operation takes some tenths of a second.
// With eight times the elements it may take thirty times as long
template <int OP> void size(Ctx &c) {
  Src &s = c.s;
  constexpr Op op = (Op)OP;
  c.log([&](auto &o) { o << names[op] << ":"; });
  std::vector<double> used;
  for (size_t n = 500; n <= 256000; n *= 2) {
    double u = operate(c, op, n, s);
    used.push_back(u);
    c.log([&](auto &o) { o << " " << n << " elements " << u << " s;"; });
    size_t k = used.size();
    if (u < 0.1 || k < 4)
      continue;
    double small = used[k - 4];
    if (u > 30 * small) { // measured again, the machine may have been busy
      small = std::max(small, operate(c, op, n / 8, s));
      u = std::min(u, operate(c, op, n, s));
      if (u > 30 * small)
        c.fail(std::string(names[op]) + " takes " + std::to_string(u) + " s of CPU time with " + std::to_string(n) +
               " elements, but only " + std::to_string(small) + " s with " + std::to_string(n / 8));
    }
    if (u > 0.2)
      break;
  }
  c.nontrivial();
}
template <int I> struct Register {
  static void all() {
    if constexpr (I < OPS) {
      pbt::registry().push_back({std::string("size: ") + names[I], size<I>, 0.01, false});
      Register<I + 1>::all();
    }
  }
};
const bool registered = (Register<0>::all(), true);
} // namespace
