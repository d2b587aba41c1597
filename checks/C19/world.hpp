// a pool of variables on which random statements are executed
#include "etr_pch.hpp"
#include "etrgen.hpp"
#include <memory>
using namespace gen;

template <class T> struct Snap { // the bytes of a variable
  std::vector<T> v;
  bool im = false;
  size_t nr = 0, nc = 0;
  T at(size_t i) const { return v[i]; }
};
struct World {
  sexp d0, d1, d2;
  etr::Vec<int> i0, i1;
  etr::Vec<bool> b0;
  std::vector<double> raw;
  std::unique_ptr<BorrowPtr> w0_, w1_;
  World(Src &s) {
    size_t n = 2 + s.below(12);
    raw.assign(2 * n + 6, -33.25);
    w0_ = std::make_unique<BorrowPtr>(raw.data() + 3, n);
    w1_ = std::make_unique<BorrowPtr>(raw.data() + 3 + n, n);
  }
};
// values drawn before each statement
struct Par {
  double k0, k1;
  int n0, n1;   // lengths, may be 0 or negative
  int p0, p1;   // positions, may not exist
  int c0, c1;   // bounds of sequences
  double q0;    // position
  bool t0;
};
inline Par genPar(Src &s, World &w) {
  Par p;
  p.k0 = genSmall(s);
  p.k1 = s.chance(1, 8) ? genSpecial(s) : genSmall(s);
  auto len = [&]() { return s.chance(1, 8) ? -(int)s.below(3) : 1 + (int)s.below(s.chance(1, 4) ? 40 : 6); };
  p.n0 = len();
  p.n1 = len();
  auto pos = [&]() {
    int n = (int)std::max({w.d0.size(), w.d1.size(), w.i0.size(), size_t(1)});
    if (s.chance(1, 10))
      return s.pick({0, -1, n + 1, n + 2, 1000000, -1000000, 2147483647});
    return 1 + (int)s.below(s.below(2) ? n : std::min(n, 5));
  };
  p.p0 = pos();
  p.p1 = pos();
  p.c0 = std::clamp(p.p0, -3, 60);
  p.c1 = std::clamp(p.p1, -3, 60);
  p.q0 = pos() + s.pick({0.0, 0.5, 0.0});
  p.t0 = s.below(2);
  return p;
}
template <class V> auto snap(const V &x) {
  using T = std::remove_cvref_t<decltype(x[0])>;
  Snap<T> r;
  for (size_t i = 0; i < x.size(); i++) // every element is read
    r.v.push_back(x.d.p[i]);
  r.im = x.im();
  r.nr = x.nr();
  r.nc = x.nc();
  return r;
}
template <class T> bool sameSnap(const Snap<T> &a, const Snap<T> &b) {
  if (a.v.size() != b.v.size() || a.im != b.im || (a.im && (a.nr != b.nr || a.nc != b.nc)))
    return false;
  for (size_t i = 0; i < a.v.size(); i++)
    if (!(a.v[i] == b.v[i] || (a.v[i] != a.v[i] && b.v[i] != b.v[i])))
      return false;
  return true;
}
// freshly allocated memory is filled with 0xbe by the sanitizer
template <class T> bool uninit(const T &x) {
  unsigned char c[sizeof(T)];
  memcpy(c, &x, sizeof(T));
  if (sizeof(T) < 4)
    return false;
  for (unsigned char b : c)
    if (b != 0xbe)
      return false;
  return true;
}
struct Snaps {
  Snap<double> d0, d1, d2, w0, w1;
  Snap<int> i0, i1;
  Snap<bool> b;
  std::vector<double> raw;
};
inline Snaps snaps(World &w) {
  Snaps r;
  r.d0 = snap(w.d0);
  r.d1 = snap(w.d1);
  r.d2 = snap(w.d2);
  r.i0 = snap(w.i0);
  r.i1 = snap(w.i1);
  r.b = snap(w.b0);
  r.w0 = snap(*w.w0_);
  r.w1 = snap(*w.w1_);
  r.raw = w.raw;
  return r;
}
// target: the variable which the statement may change
inline void checkWorld(Ctx &c, World &w, const Snaps &a, const std::string &target, const std::string &text) {
  Snaps b = snaps(w);
  auto one = [&](const char *n, const auto &x, const auto &y, const auto &v) {
    if (target != n && !sameSnap(x, y))
      c.fail(text + ": changes " + n);
    for (size_t i = 0; i < y.v.size(); i++)
      if (uninit(y.at(i)))
        c.fail(text + ": " + n + " contains memory without content");
    if (v.d.capacity < v.size())
      c.fail(text + ": the capacity of " + n + " is smaller than its size");
    if (v.size() && !v.d.allocated)
      c.fail(text + ": " + n + " has elements without memory");
  };
  one("d0", a.d0, b.d0, w.d0);
  one("d1", a.d1, b.d1, w.d1);
  one("d2", a.d2, b.d2, w.d2);
  one("i0", a.i0, b.i0, w.i0);
  one("i1", a.i1, b.i1, w.i1);
  one("b0", a.b, b.b, w.b0);
  one("w0", a.w0, b.w0, *w.w0_);
  one("w1", a.w1, b.w1, *w.w1_);
  size_t n = (w.raw.size() - 6) / 2;
  for (size_t i = 0; i < w.raw.size(); i++) {
    bool mine = (target == "w0" && i >= 3 && i < 3 + n) || (target == "w1" && i >= 3 + n && i < 3 + 2 * n);
    if (!mine && memcmp(&w.raw[i], &a.raw[i], sizeof(double)))
      c.fail(text + ": changes memory outside of " + target);
  }
  // memory is never shared between variables
  const void *p[] = {w.d0.d.p, w.d1.d.p, w.d2.d.p, w.i0.d.p, w.i1.d.p, w.b0.d.p, w.raw.data() + 3, w.raw.data() + 3 + n};
  if (w.w0_->d.p != p[6] || w.w1_->d.p != p[7])
    c.fail(text + ": a borrowed object has another memory");
  for (int i = 0; i < 8; i++)
    for (int j = 0; j < i; j++)
      if (p[i] && p[i] == p[j])
        c.fail(text + ": two variables have the same memory");
}
inline sexp byValue(sexp x, double v) {
  x = etr::coca(x, v);
  return x;
}
inline sexp result(const sexp &x, int p) {
  sexp r;
  r = x;
  etr::at(r, p) = 1.5;
  return r;
}
inline void byRef(sexp &x, int n) { x = etr::rep(x, n); }
inline void half(World &w) { // keeps the variables small
  auto one = [&](auto &x) {
    if (x.size() > 120)
      x = etr::coca(1, 0, 1);
  };
  one(w.d0);
  one(w.d1);
  one(w.d2);
  one(w.i0);
  one(w.i1);
  one(w.b0);
}
struct Stmt {
  const char *text, *target;
  void (*fn)(World &, const Par &);
};
template <size_t N> void runHistory(Ctx &c, const Stmt (&st)[N]) {
  Src &s = c.s;
  World w(s);
  // most variables have a content at the beginning
  auto start = [&](auto &x, Ty t) {
    using V = std::remove_cvref_t<decltype(x)>;
    using T = std::remove_cvref_t<decltype(x[0])>;
    if (s.chance(1, 8))
      return;
    if (s.chance(1, 4)) {
      auto y = make<T>(genMat(s, genDim(s, 4), genDim(s, 4), t, SMALL));
      x = y;
    } else {
      auto y = make<T>(genVec(s, genSize(s, 30), t, SMALL));
      x = y;
    }
  };
  start(w.d0, Ty::D);
  start(w.d1, Ty::D);
  start(w.d2, Ty::D);
  start(w.i0, Ty::I);
  start(w.i1, Ty::I);
  start(w.b0, Ty::B);
  int steps = 0, refused = 0;
  while (steps < 30 && s.below(14)) {
    steps++;
    const Stmt &t = st[s.below(N)];
    Par p = genPar(s, w);
    Snaps before = snaps(w);
    c.log([&](auto &o) {
      o << t.text << " {k0=" << p.k0 << " k1=" << p.k1 << " n0=" << p.n0 << " n1=" << p.n1 << " p0=" << p.p0 << " p1=" << p.p1 << " q0=" << p.q0 << " t0=" << p.t0 << "}";
    });
    bool r = throws([&]() { t.fn(w, p); });
    refused += r;
    c.log([&](auto &o) { o << (r ? " (refused); " : "; "); });
    checkWorld(c, w, before, t.target, std::string(t.text) + (r ? " (refused)" : ""));
    half(w);
  }
  if (refused)
    c.label("refused operations");
  if (refused > 2)
    c.label("more than two refused operations");
  c.nontrivial(steps - refused > 1);
}
