// R objects together with their model
#ifndef ROBJ_HPP
#define ROBJ_HPP
#include "refmodel.hpp"
using namespace ref;

struct RO { // an R object and what it has to contain
  SEXP s = nullptr;
  MV m;
};
inline SEXPTYPE rtype(Ty t) { return t == Ty::D ? REALSXP : t == Ty::I ? INTSXP : LGLSXP; }
inline SEXP makeR(const MV &m) {
  SEXP s = m.im ? Rf_allocMatrix(rtype(m.ty), (int)m.nr, (int)m.nc) : Rf_allocVector(rtype(m.ty), (R_xlen_t)m.size());
  R_PreserveObject(s);
  for (size_t i = 0; i < m.size(); i++)
    if (m.ty == Ty::D)
      ::REAL(s)[i] = m.v[i];
    else
      INTEGER(s)[i] = (int)m.v[i];
  return s;
}
inline MV readR(SEXP s) {
  MV m;
  m.ty = s->type == REALSXP ? Ty::D : s->type == INTSXP ? Ty::I : Ty::B;
  for (R_xlen_t i = 0; i < s->len; i++)
    m.v.push_back(s->type == REALSXP ? ::REAL(s)[i] : INTEGER(s)[i]);
  m.im = s->matrix;
  if (m.im) {
    m.nr = (size_t)s->nrow;
    m.nc = (size_t)s->ncol;
  }
  return m;
}
inline void expectR(pbt::Ctx &c, SEXP s, const MV &want, const std::string &what) {
  if (s->type != rtype(want.ty))
    c.fail(what + ": R type " + std::to_string(s->type) + " instead of " + std::to_string(rtype(want.ty)));
  expectMV(c, readR(s), want, what);
}
inline void balanced(pbt::Ctx &c, size_t stack, const std::string &what) {
  auto &st = rstub::st();
  if (st.unbalanced || st.stack.size() != stack)
    c.fail(what + ": PROTECT and UNPROTECT are not balanced");
}
inline MV genObj(Src &s, Ty t, size_t maxLarge = 60, int cls = SMALL) {
  if (s.chance(1, 3))
    return genMat(s, genDim(s, 4), genDim(s, 4), t, cls);
  return genVec(s, genSize(s, maxLarge), t, cls);
}
template <class T> etr::Vec<T> makeVec(const MV &m) {
  etr::Vec<T> x(etr::SI{m.size()});
  for (size_t i = 0; i < m.size(); i++)
    x[i] = static_cast<T>(m.v[i]);
  if (m.im)
    x.d.setMatrix(true, m.nr, m.nc);
  return x;
}
struct Fresh { // an empty R for every case
  Fresh() { rstub::reset(); }
  ~Fresh() { rstub::reset(); }
};
#endif
