// growing calculations of one shape
#include "etr_pch.hpp"
#include "effort.hpp"
using namespace gen;
using namespace effort;
using pbt::Ctx;
using pbt::Src;
#define STAGE(N, TEXT, CODE, REF)                                                                  \
  {                                                                                                \
    sexp r;                                                                                        \
    Watch w;                                                                                       \
    r = CODE;                                                                                      \
    double u = w.used();                                                                           \
    c.log([&](auto &o) { o << " " << N; });                                                        \
    within(c, u, LIMIT, std::string(TEXT) + " with " + std::to_string(N) + " operations: r = ...");\
    if (r.size() != lv.L)                                                                          \
      c.fail(std::string(TEXT) + ": " + std::to_string(r.size()) + " elements instead of " + std::to_string(lv.L)); \
    for (size_t i = 0; i < lv.L; i++) {                                                            \
      double want = REF;                                                                           \
      double got = r[i];                                                                           \
      if (!effort::same(want, got))                                                                        \
        c.fail(std::string(TEXT) + " with " + std::to_string(N) + " operations: element " +        \
               std::to_string(i) + " is " + std::to_string(r[i]) + " instead of " + std::to_string(want)); \
    }                                                                                              \
    c.nontrivial();                                                                                \
  }
#define USES(N, TEXT, CODE)                                                                        \
  {                                                                                                \
    Watch w;                                                                                       \
    auto n = etr::length((CODE) + x0);                                                                    \
    within(c, w.used(), LIMIT, std::string(TEXT) + " with " + std::to_string(N) + " operations: length"); \
    c.require((size_t)n == lv.L, std::string(TEXT) + ": length is " + std::to_string((size_t)n));   \
    w = Watch();                                                                                   \
    sexp t = etr::vector_numeric(lv.L);                                                                      \
    etr::subset(t, true) = CODE;                                                                   \
    within(c, w.used(), LIMIT, std::string(TEXT) + " with " + std::to_string(N) + " operations: assigned to a subset"); \
  }
