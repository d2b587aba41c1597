// every sub: a program written with the library and the same program in C++
#include "etr_pch.hpp"
#include "etrgen.hpp"
#include <numeric>
using namespace gen;
using dvec = std::vector<double>;
using etr::at;
using etr::coca;
using etr::colon;
using etr::length;
using etr::matrix;
using etr::rep;

using etr::vector_integer;
using etr::vector_logical;
using etr::vector_numeric;
typedef etr::Vec<int> ivec;
typedef etr::Vec<bool> bvec;

inline sexp in(const MV &m) { return make<double>(m); }
inline MV out(const dvec &v) { return vec(v); }
inline MV outM(const dvec &v, size_t r, size_t c) {
  MV m = vec(v);
  m.im = true;
  m.nr = r;
  m.nc = c;
  return m;
}
inline void input(Ctx &c, const char *name, const MV &m) {
  c.log([&](auto &o) { o << name << " of " << str(m); });
  c.nontrivial(m.size() > 1);
  c.label(name);
}
