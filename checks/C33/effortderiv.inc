// growing calculations with derivatives
#include "etr_pch.hpp"
#include "effort.hpp"
using namespace gen;
using namespace effort;
using pbt::Ctx;
using pbt::Src;
#define DSTAGE(N, TEXT, CODE, REF)                                                                 \
  {                                                                                                \
    std::vector<DM> m;                                                                             \
    for (int k = 0; k < 3; k++)                                                                    \
      m.push_back(dmOf(ref::vec(lv.v[k]), k == indep ? 1.0 : 0.0));                                \
    using AVS = etr::AllVars<4, 0, 0, 24>;                                                         \
    AVS av(indep, 0);                                                                              \
    auto x0 = make<double>(ref::vec(lv.v[0])), x1 = make<double>(ref::vec(lv.v[1])),               \
         x2 = make<double>(ref::vec(lv.v[2])), x3 = make<double>(ref::vec({0.0}));                 \
    av.initBuffer(x0, x1, x2, x3);                                                                 \
    etr::Vec<double, etr::VarPointer<AVS, 0, 0>, etr::VariableTypeTrait> a0(av);                   \
    etr::Vec<double, etr::VarPointer<AVS, 1, 0>, etr::VariableTypeTrait> a1(av);                   \
    etr::Vec<double, etr::VarPointer<AVS, 2, 0>, etr::VariableTypeTrait> a2(av);                   \
    etr::Vec<double, etr::VarPointer<AVS, 3, 0>, etr::VariableTypeTrait> r(av);                    \
    Watch w;                                                                                       \
    r = CODE;                                                                                      \
    double u = w.used();                                                                           \
    c.log([&](auto &o) { o << " " << N; });                                                        \
    within(c, u, LIMIT, std::string(TEXT) + " with derivatives and " + std::to_string(N) + " operations"); \
    DM want = REF;                                                                                 \
    if (sane(want)) {                                                                              \
      expectDual(c, valuesOf(r), want, false, "values");                                           \
      expectDual(c, derivsOf(r), want, true, "derivatives");                                       \
      c.nontrivial();                                                                              \
    }                                                                                              \
  }
