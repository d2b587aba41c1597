// derivatives of generated programs against dual numbers
#include "etr_pch.hpp"
#include "derivprog.hpp"
using namespace gen;

template <class PAR, class GEN, class DERIV, class MODEL>
static void runProgram(Ctx &c, bool mat, const char *text, GEN &&genPar, DERIV &&deriv, MODEL &&model) {
  Src &s = c.s;
  overflow() = false;
  Start st = genStart(s, mat);
  PAR p = genPar(s);
  int indep = (int)s.below(5);
  bool lazy = s.below(3) == 0; // derivatives are only read at the end
  std::vector<DM> ms(5);
  for (int i = 0; i < 5; i++)
    ms[i] = dmOf(st.m[i], i == indep ? 1.0 : 0.0);
  // the model first
  struct Step {
    int target;
    bool refused;
    std::vector<DM> after;
  };
  std::vector<Step> steps;
  std::vector<size_t> cap = {0, 0, 0, st.cap[0], st.cap[1]};
  bool stop = false;
  model(p, ms, indep, [&](int, int t, DM &r) {
    bool fit = true;
    if (mat) // a matrix calculates with matrices of the same size and shorter vectors
      fit = !r.im || r.size() == r.nr * r.nc;
    if (!sane(r) || overflow() || !fit) {
      stop = true;
      return false;
    }
    bool refused = BTYPE == 1 && t >= 3 && r.size() > cap[t];
    std::vector<DM> after = ms;
    if (!refused)
      after[t] = r;
    steps.push_back({t, refused, after});
    if (refused)
      r = ms[t]; // the variable keeps its content
    return true;
  });
  c.log([&](auto &o) {
    o << text << " with";
    for (int i = 0; i < 5; i++)
      o << " " << varName(i) << "=" << str(st.m[i]);
    o << " derivative with respect to " << varName(indep);
    for (auto &q : steps)
      o << " -> " << varName(q.target) << "=" << (q.refused ? "refused" : dstr(q.after[q.target]));
  });
  if (steps.empty())
    return;
  AV av(indep < 3 ? indep : indep - 3, indep < 3 ? 0 : BTYPE);
  auto x0 = make<double>(st.m[0]), x1 = make<double>(st.m[1]), x2 = make<double>(st.m[2]);
  av.initBuffer(x0, x1, x2);
#ifdef DERIV_R
  rstub::reset();
  SEXP mem[2];
  std::vector<double> memory[2]; // expected
  bool attached[2] = {true, true};
  for (int i = 0; i < 2; i++) {
    const MV &m = st.m[3 + i];
    mem[i] = m.im ? Rf_allocMatrix(REALSXP, (int)m.nr, (int)m.nc) : Rf_allocVector(REALSXP, (R_xlen_t)m.size());
    R_PreserveObject(mem[i]);
    std::copy(m.v.begin(), m.v.end(), ::REAL(mem[i]));
    memory[i] = m.v;
  }
  av.initBorrowSEXP(mem[0], mem[1]);
#else
  std::vector<double> mem0 = st.m[3].v, mem1 = st.m[4].v;
  BorrowPtr y0(mem0.data(), mem0.size()), y1(mem1.data(), mem1.size());
  av.initBorrow(y0, y1);
#endif
  size_t k = 0;
  deriv(p, av, [&](int, auto &&f, auto &a0, auto &a1, auto &a2, auto &b0, auto &b1) {
    if (k >= steps.size())
      return false;
    Step &q = steps[k++];
    if (q.refused) {
      c.label("refused");
      if (!throws(f))
        c.fail("more elements than borrowed ones are accepted");
    } else
      f();
    const char *v = varName(q.target);
    auto all = [&](auto &x, int i, bool force) {
      if (i != q.target && !force)
        return;
      bool changed = false;
      expectDual(c, valuesOf(x), q.after[i], false, std::string(varName(i)) + " after " + v + " = ...");
      if (!lazy || k == steps.size())
        expectDual(c, derivsOf(x), q.after[i], true, std::string(varName(i)) + " after " + v + " = ...");
      for (auto &e : q.after[i].e)
        changed = changed || (e.d != 0 && e.d != 1);
      if (changed)
        c.nontrivial();
    };
    bool every = !lazy || k == steps.size();
    all(a0, 0, every);
    all(a1, 1, every);
    all(a2, 2, every);
    all(b0, 3, every);
    all(b1, 4, every);
#ifdef DERIV_R
    if (q.target >= 3) {
      int w = q.target - 3;
      const auto &e = q.after[q.target].e;
      if (e.size() > memory[w].size())
        attached[w] = false; // it has memory of its own from now on
      if (attached[w]) {
        const double *r = ::REAL(mem[w]);
        for (size_t i = 0; i < e.size(); i++) {
          if (r[i] != (w ? av.varBorrowSEXP[1].d.p : av.varBorrowSEXP[0].d.p)[i])
            c.fail(std::string(v) + " does not write to the R object");
          memory[w][i] = r[i];
        }
      }
    }
    for (int w = 0; w < 2; w++)
      for (size_t i = 0; i < memory[w].size(); i++)
        if (!same(::REAL(mem[w])[i], memory[w][i]))
          c.fail(std::string("the R object of ") + varName(3 + w) + " has changed at " + std::to_string(i) + " after " + v + " = ...");
#endif
    return true;
  });
  c.label(indep < 3 ? "independent variable owned" : "independent variable borrowed");
  if (steps.size() > 3)
    c.label("more than 3 assignments");
  if (stop)
    c.label("stopped early");
}
#define DERIV_PROGRAM(i, mat, text)                                                                \
  static void run_##i(Ctx &c) {                                                                    \
    runProgram<P##i::Par>(                                                                         \
        c, mat, text, [](Src &s) { return P##i::gen(s); },                                         \
        [](auto &p, auto &av, auto &&cb) { P##i::deriv(p, av, cb); },                              \
        [](auto &p, auto &v, int indep, auto &&cb) { P##i::model(p, v, indep, cb); });             \
  }                                                                                                \
  PBT_SUB(std::string("program_") + std::to_string(FILE_NO) + "_" #i, 0.1, run_##i);
