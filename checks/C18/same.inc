// the same program with ordinary variables and with derivatives
#include "etr_pch.hpp"
#include "derivprog.hpp"
using namespace gen;

struct Obs { // what is seen after a statement
  bool refused = false;
  std::string msg;
  MV v[5];
};
static bool identical(double a, double b) {
  return a == b || (std::isnan(a) && std::isnan(b));
}
template <class X> static MV seen(X &x) {
  MV m;
  auto o = x.d.get();
  m.v = valuesOf(x);
  m.im = o.im();
  m.nr = m.im ? o.nr() : 0;
  m.nc = m.im ? o.nc() : 0;
  return m;
}
// constants are numeric with derivatives: only integers have no negative zero. Nothing is
// compared after zeros of different sign because a division makes them different
static bool signedZero(const Obs &got, const Obs &want) {
  for (int i = 0; i < 5; i++)
    for (size_t j = 0; j < got.v[i].size() && j < want.v[i].size(); j++)
      if (got.v[i].v[j] == 0 && std::signbit(got.v[i].v[j]) != std::signbit(want.v[i].v[j]))
        return true;
  return false;
}
static void expectObs(Ctx &c, const Obs &got, const Obs &want, int k, int indep) {
  std::string w = "after statement " + std::to_string(k + 1) + " with derivatives for " + varName(indep);
  if (got.refused != want.refused)
    c.fail(w + (want.refused ? ": is refused without derivatives only: " + want.msg
                             : ": is refused with derivatives only: " + got.msg));
  for (int i = 0; i < 5; i++) {
    const MV &a = got.v[i], &b = want.v[i];
    bool ok = a.size() == b.size() && a.im == b.im && (!a.im || (a.nr == b.nr && a.nc == b.nc));
    for (size_t j = 0; ok && j < a.size(); j++)
      ok = identical(a.v[j], b.v[j]);
    if (!ok)
      c.fail(w + ": " + varName(i) + " is " + str(a) + " and " + str(b) + " without derivatives");
  }
}
template <class PAR, class GEN, class DERIV, class PLAIN>
static void runProgram(Ctx &c, bool mat, const char *text, GEN &&genPar, DERIV &&deriv, PLAIN &&plain) {
  Src &s = c.s;
  overflow() = false;
  Start st = genStart(s, mat);
  if (s.below(4) == 0) { // any values
    int i = (int)s.below(5);
    for (double &x : st.m[i].v)
      x = genVal(s, SPECIAL);
  }
  PAR p = genPar(s);
  std::vector<Obs> want;
  std::vector<double> mem0 = st.m[3].v, mem1 = st.m[4].v;
  {
    PlainVars pv;
    for (int i = 0; i < 3; i++)
      pv.a[i] = make<double>(st.m[i]);
    pv.b[0] = std::make_unique<BorrowPtr>(mem0.data(), mem0.size());
    pv.b[1] = std::make_unique<BorrowPtr>(mem1.data(), mem1.size());
    plain(p, pv, [&](int, auto &&f, auto &a0, auto &a1, auto &a2, auto &b0, auto &b1) {
      Obs o;
      o.refused = throws(f, &o.msg);
      o.v[0] = readBack(a0);
      o.v[1] = readBack(a1);
      o.v[2] = readBack(a2);
      o.v[3] = readBack(b0);
      o.v[4] = readBack(b1);
      for (auto &m : o.v)
        if (m.im && m.size() != m.nr * m.nc)
          return false; // a matrix with a longer vector
      want.push_back(o);
      return true;
    });
  }
  c.log([&](auto &o) {
    o << text << " with";
    for (int i = 0; i < 5; i++)
      o << " " << varName(i) << "=" << str(st.m[i]);
    for (size_t k = 0; k < want.size(); k++) {
      o << " -> " << k + 1 << (want[k].refused ? " refused:" : ":");
      for (int i = 0; i < 5; i++)
        o << " " << str(want[k].v[i]);
    }
  });
  std::vector<std::vector<double>> ends = {mem0, mem1};
  for (int indep = 0; indep < 5; indep++) {
    std::vector<double> q0 = st.m[3].v, q1 = st.m[4].v;
    AV av(indep < 3 ? indep : indep - 3, indep < 3 ? 0 : 1);
    auto x0 = make<double>(st.m[0]), x1 = make<double>(st.m[1]), x2 = make<double>(st.m[2]);
    av.initBuffer(x0, x1, x2);
    BorrowPtr y0(q0.data(), q0.size()), y1(q1.data(), q1.size());
    av.initBorrow(y0, y1);
    int k = 0;
    deriv(p, av, [&](int, auto &&f, auto &a0, auto &a1, auto &a2, auto &b0, auto &b1) {
      if (k >= (int)want.size())
        return false;
      Obs o;
      o.refused = throws(f, &o.msg);
      o.v[0] = seen(a0);
      o.v[1] = seen(a1);
      o.v[2] = seen(a2);
      o.v[3] = seen(b0);
      o.v[4] = seen(b1);
      expectObs(c, o, want[k], k, indep);
      if (signedZero(o, want[k])) {
        c.label("zeros of different sign");
        return false;
      }
      if (want[k].refused)
        c.label("refused");
      k++;
      return true;
    });
    if (k == (int)want.size() && want.size()) {
      // the borrowed memory itself
      const std::vector<double> *q[2] = {&q0, &q1};
      for (int b = 0; b < 2; b++)
        for (size_t j = 0; j < want.back().v[3 + b].size(); j++)
          if (!identical((*q[b])[j], want.back().v[3 + b].v[j]))
            c.fail("the borrowed memory was not changed in place with derivatives for " + std::string(varName(indep)));
      // the variables from which it was initialised do not change
      auto keep = [&](auto &x, int i) {
        MV m = readBack(x);
        for (size_t j = 0; j < m.size(); j++)
          if (!identical(m.v[j], st.m[i].v[j]))
            c.fail("the variable used for the initialisation has changed");
      };
      keep(x0, 0);
      keep(x1, 1);
      keep(x2, 2);
    }
  }
  for (auto &o : want)
    for (int i = 0; i < 5; i++)
      if (!o.refused && str(o.v[i]) != str(st.m[i]))
        c.nontrivial();
  if (want.size() > 3)
    c.label("more than 3 assignments");
}
#define DERIV_PROGRAM(i, mat, text)                                                                \
  static void run_##i(Ctx &c) {                                                                    \
    runProgram<P##i::Par>(                                                                         \
        c, mat, text, [](Src &s) { return P##i::gen(s); },                                         \
        [](auto &p, auto &av, auto &&cb) { P##i::deriv(p, av, cb); },                              \
        [](auto &p, auto &v, auto &&cb) { P##i::plain(p, v, cb); });                               \
  }                                                                                                \
  PBT_SUB(std::string("same_") + std::to_string(FILE_NO) + "_" #i, 0.1, run_##i);
