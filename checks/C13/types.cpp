// repetitions given by every number type, values of every number type
#include "etr_pch.hpp"
#include "numtypes.hpp"
using namespace gen;
template <class T> static void reps(Ctx &c) {
  Src &s = c.s;
  double n = (double)s.below(12);
  if (s.chance(1, 6))
    n = s.pick({-1.0, -100.0, 0.5, 1.5, 2.75});
  int k = ntKind(s, n);
  MV m = genVec(s, genSize(s, 20), tyOf<T>(), SMALL), want = vec({}, m.ty);
  for (int i = 0; i < (int)n; i++)
    want.v.insert(want.v.end(), m.v.begin(), m.v.end());
  std::string what = "rep(" + str(m) + ", " + num(n) + " as " + ntName(k) + ")";
  c.log([&](auto &o) { o << what; });
  c.nontrivial(want.size() > 1);
  auto x = make<T>(m);
  ntCall(k, n, [&](auto t) {
    if (n < 1) {
      if (!throws([&]() { (void)etr::rep(x, t); }))
        c.fail(what + " is accepted");
      return;
    }
    expectVec(c, etr::rep(x, t), want, what);
    expectVec(c, x, m, "the repeated object");
  });
}
static void values(Ctx &c) { // numbers which are repeated and combined
  Src &s = c.s;
  double v = (double)s.below(200) - 100, w = (double)s.below(100);
  if (s.chance(1, 3))
    v += s.pick({0.5, 0.25});
  int k = ntKind(s, v, false), l = ntKind(s, w, false), n = 1 + (int)s.below(9);
  MV m = genVec(s, genSize(s, 9), Ty::D, SMALL);
  auto x = make<double>(m);
  std::string what = num(v) + " as " + ntName(k) + ", " + num(w) + " as " + ntName(l);
  c.log([&](auto &o) { o << what; });
  c.nontrivial();
  ntCall(k, v, [&](auto a) {
    expectVec(c, etr::rep(a, n), vec(std::vector<double>((size_t)n, v)), "rep of " + what);
    MV want = vec({v});
    want.v.insert(want.v.end(), m.v.begin(), m.v.end());
    expectVec(c, etr::coca(a, x), want, "coca of " + what + " and " + str(m));
    ntCall(l, w, [&](auto b) {
      expectVec(c, etr::coca(a, b, 1.5), vec({v, w, 1.5}), "coca of " + what);
      expectVec(c, etr::coca(b, a), vec({w, v}), "coca of " + what);
      sexp z;
      z = a;
      expectVec(c, z, vec({v}), "z = " + what);
      z = etr::coca(b, b, a);
      expectVec(c, z, vec({w, w, v}), "z = coca of " + what);
      etr::Vec<int> i;
      i = a;
      expectVec(c, i, vec({std::trunc(v)}, Ty::I), "int z = " + what);
    });
  });
}
PBT_SUB("types double", 0.3, reps<double>);
PBT_SUB("types int", 0.2, reps<int>);
PBT_SUB("types bool", 0.2, reps<bool>);
PBT_SUB("values of types", 0.3, values);
