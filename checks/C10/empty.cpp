// every use of an object without elements: variables without memory, empty borrowed memory
#include "bad.hpp"
using Uses = std::vector<std::pair<const char *, std::function<void()>>>;
// E is the object without elements, v a vector of three elements and m a matrix
template <class T, class E> static void addUses(Uses &u, E &e, etr::Vec<T> &v, etr::Vec<T> &m, sexp &r) {
#define USE(...) u.push_back({#__VA_ARGS__, [&]() { __VA_ARGS__; }})
  // the values of elements are needed: refused
  USE(volatile double d = e; (void)d);
  USE(volatile double d = e + 1.0; (void)d);
  USE(volatile double d = e + v; (void)d);
  USE(volatile double d = v * e; (void)d);
  USE(volatile double d = -e; (void)d);
  USE(volatile double d = etr::sinus(e); (void)d);
  USE(volatile double d = etr::sinus(v - e) / 2.0; (void)d);
  USE(if (e == 1) r = 1.0);
  USE(if (e < v) r = 1.0);
  USE(if (v != e) r = 1.0);
  USE(r = e);
  USE(r = e + 1.0);
  USE(r = e + v);
  USE(r = v - e);
  USE(r = e == v);
  USE(r = e * e);
  USE(r = -e);
  USE(r = etr::exp(e));
  USE(r = etr::sqroot(e / v));
  USE(r = etr::subset(e, 1));
  USE(r = etr::subset(e, v));
  USE(r = etr::subset(e, 1, 1));
  USE(r = etr::subset(e, true));
  USE(r = etr::subset(v, e));
  USE(r = etr::subset(v, e == 1));
  USE(r = etr::subset(m, e == 1, 1));
  USE(r = etr::subset(m, 1, e == 1));
  USE(r = etr::subset(m, e, 1));
  USE(r = etr::subset(m, true, e));
  USE(r = etr::subset(m, e, e));
  USE(r = etr::subset(v, e) + 1);
  USE(volatile double d = etr::subset(v, e); (void)d);
  USE(volatile double d = etr::subset(v, e) + 1; (void)d);
  USE(r = etr::rep(e, 2));
  USE(r = etr::rep(v, e));
  USE(r = etr::rep(1.0, e));
  USE(r = etr::colon(e, 3));
  USE(r = etr::colon(1, e));
  USE(r = etr::vector_numeric(e));
  USE(r = etr::vector_integer(e));
  USE(r = etr::isNA(e));
  USE(r = etr::isInf(e));
  USE(r = etr::dim(e));
  USE(r = etr::at(e, 1));
  USE(r = etr::at(e, 1, 1));
  if constexpr (std::is_same_v<T, double>) {
    USE(r = etr::li(1.0, e, e));
    USE(r = etr::cmr(1.0, e, e));
    USE(r = etr::li(1.0, v, e));
    USE(r = etr::li(1.0, e, v));
  }
  USE(etr::subset(e, 1) = 1.0);
  USE(etr::subset(e, v) = 1.0);
  USE(etr::subset(e, v) = v);
  USE(etr::subset(v, e == 1) = 1.0);
  USE(etr::subset(m, e == 1, 1) = 1.0);
  USE(etr::at(e, 1) = 1.0);
  USE(e[0] = T(1));
  USE(v = e);
  USE(v = e + v);
  USE(m = e);
#undef USE
}
// no values are needed: only no crash and nothing changes
template <class T, class E> static void addOther(Uses &u, E &e, etr::Vec<T> &v, etr::Vec<T> &m, sexp &r) {
#define USE(...) u.push_back({#__VA_ARGS__, [&]() { __VA_ARGS__; }})
  USE(r = etr::coca(e, v));
  USE(r = etr::coca(v, e, v));
  USE(r = etr::length(e));
  USE(auto x = e + v; r = (double)x.size() + 1);
  USE(for (auto x : e) r = (double)x);
  USE(for (auto x : etr::subset(v, e)) r = (double)x);
  USE(auto x = etr::subset(m, e, e); r = (double)x.size() + 1);
  USE(std::ostringstream o; o << e);
#undef USE
}
template <class T, class E> static void uses(Ctx &c, E &e, const char *what) {
  Src &s = c.s;
  Witness w(s);
  MV mv = genVec(s, 3, std::is_same_v<T, double> ? Ty::D : std::is_same_v<T, int> ? Ty::I : Ty::B, REAL);
  MV mm = genMat(s, 2, 3, mv.ty, REAL);
  auto v = make<T>(mv);
  auto m = make<T>(mm);
  sexp r;
  Uses must, other;
  addUses<T>(must, e, v, m, r);
  addOther<T>(other, e, v, m, r);
  size_t n = s.below(must.size() + other.size());
  auto &use = n < must.size() ? must[n] : other[n - must.size()];
  c.log([&](auto &o) { o << use.first << " with e " << what; });
  c.nontrivial(true);
  if (n < must.size()) {
    mustThrow(c, use.second, std::string(use.first) + " with e " + what);
    expectVec(c, v, mv, "a variable after a refused use of an empty object");
    expectVec(c, m, mm, "a matrix after a refused use of an empty object");
  } else {
    try {
      use.second();
    } catch (const std::exception &) {
    }
  }
  c.require(e.size() == 0, "the object has elements");
  v = etr::coca(1.0, 2.0);
  m = v;
  expectVec(c, v, ref::vec({1, std::is_same_v<T, bool> ? 1.0 : 2.0}), "assignment afterwards");
  r = 3.0;
  expectVec(c, r, ref::vec({3}), "assignment of a number afterwards");
  w.check(c);
}
template <class T> static void noMemory(Ctx &c) {
  etr::Vec<T> e;
  uses<T>(c, e, "a variable without memory");
}
static void noBorrow(Ctx &c) {
  etr::Vec<double, etr::Borrow<double>> e;
  uses<double>(c, e, "borrowing nothing");
}
static void emptyBorrow(Ctx &c) {
  std::vector<double> mem(3, 77);
  std::unique_ptr<double[]> own(new double[0]);
  const bool inside = c.s.below(2);
  etr::Vec<double, etr::Borrow<double>> e(inside ? mem.data() + 1 : own.get(), 0);
  int how = (int)c.s.below(6);
  const char *names[] = {"e = 1.0", "e = 1", "e = true", "e = vector", "e = calculation", "no assignment"};
  c.log([&](auto &o) { o << names[how] << " of empty borrowed memory"; });
  sexp v;
  v = etr::coca(4.0);
  switch (how) {
  case 0:
    mustThrow(c, [&]() { e = 1.0; }, names[how]);
    break;
  case 1:
    mustThrow(c, [&]() { e = 1; }, names[how]);
    break;
  case 2:
    mustThrow(c, [&]() { e = true; }, names[how]);
    break;
  case 3:
    mustThrow(c, [&]() { e = v; }, names[how]);
    break;
  case 4:
    mustThrow(c, [&]() { e = v + 1; }, names[how]);
    break;
  }
  c.require(e.size() == 0, "empty borrowed memory has elements after a refused assignment");
  uses<double>(c, e, "empty borrowed memory");
  for (double d : mem)
    c.require(d == 77, "memory beside empty borrowed memory was written");
}
PBT_SUB("no elements num", 0.3, noMemory<double>);
PBT_SUB("no elements int", 0.15, noMemory<int>);
PBT_SUB("no elements bool", 0.15, noMemory<bool>);
PBT_SUB("no borrow", 0.2, noBorrow);
PBT_SUB("empty borrow", 0.3, emptyBorrow);
